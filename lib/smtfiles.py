"""Problem files read by the machine of spec/SmtFile.tla."""
import json
import random
import re

import runner
import smt
import tlc
import tool

SIMPLE = re.compile(r"[A-Za-z~!@$%^&*_+=<>.?/-][0-9A-Za-z~!@$%^&*_+=<>.?/-]*\Z")


def term(x):
    if isinstance(x, str):
        return ["app", x, [], []]
    if not x or not isinstance(x[0], str):
        return ["app", "", [], [term(y) for y in x]]
    if x[0] in ("forall", "exists") and len(x) == 3 and isinstance(x[1], list) and all(isinstance(b, list) and len(b) == 2 and all(isinstance(z, str) for z in b) for b in x[1]):
        return [x[0], "", x[1], [term(x[2])]]
    return ["app", x[0], [], [term(y) for y in x[1:]]]


def commands(text, dialect):
    """(commands, names made of other characters than SMT-LIB's)"""
    items = [i for i in smt.read(text) if isinstance(i, list)]
    last = max([k for k, i in enumerate(items) if i and i[0] in ("assert", "assert-not")], default=-1)
    out = []
    st = lambda x: x if isinstance(x, str) else smt.unparse(x)
    for k, i in enumerate(items):
        h = i[0] if i and isinstance(i[0], str) else ""
        try:
            if h == "declare-sort":
                c = dict(c="sort" if i[2] == "0" else "bad", n=st(i[1]))
            elif h == "define-sort":
                c = dict(c="alias" if i[2] == [] else "bad", n=st(i[1]), s=st(i[3]))
            elif h == "declare-fun":
                c = dict(c="fun", n=st(i[1]), a=[st(x) for x in i[2]], s=st(i[3]))
            elif h == "declare-const":
                c = dict(c="fun", n=st(i[1]), a=[], s=st(i[2]))
            elif h == "declare-datatypes":
                d = []
                for (s, z), ks in zip(i[1], i[2]):
                    d.append(dict(n=st(s), k=[dict(n=q, a=[]) if isinstance(q, str) else dict(n=st(q[0]), a=[[st(x[0]), st(x[1])] for x in q[1:]]) for q in ks]))
                c = dict(c="data" if len(i[1]) == len(i[2]) else "bad", d=d)
            elif h == "assert-not" and dialect == "vampire":
                c = dict(c="goal", f=term(i[1]))
            elif h == "assert" and k == last and isinstance(i[1], list) and i[1][:1] == ["not"] and len(i[1]) == 2:
                c = dict(c="goal", f=term(i[1][1]))
            elif h == "assert":
                c = dict(c="assert", f=term(i[1]))
            elif h == "assert-theory":
                c = dict(c="theory", f=term(i[1]))
            elif h == "check-sat":
                c = dict(c="check")
            elif h in ("set-option", "set-logic", "set-info", "get-proof", "exit"):
                c = dict(c="option")
            else:
                c = dict(c="bad")
        except (IndexError, ValueError, TypeError):
            c = dict(c="bad")
        out.append(c)
    bad = set()
    for c in out:
        ns = [c["n"]] if "n" in c else []
        for d in c.get("d", []):
            ns += [d["n"]] + [k["n"] for k in d["k"]] + [a[0] for k in d["k"] for a in k["a"]]
        bad |= {n for n in ns if not SIMPLE.match(n) and not re.fullmatch(r"\|[^|\\]*\|", n)}
    return out, sorted(bad), items


def read_all(files):
    """[(dialect, text)] -> for each None or why it is not read to its end; and TLC's result"""
    js, why, idx = [], [None] * len(files), []
    its = []
    for n, (d, t) in enumerate(files):
        try:
            c, bad, items = commands(t, d)
        except smt.SmtError as e:
            why[n] = str(e)
            continue
        idx.append(n)
        its.append(items)
        js.append(dict(dialect=d, cmds=c, bad=bad))
    if not js:
        return why, None
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Progress\nINVARIANT OneQuestion\nINVARIANT SigOverSorts\nPOSTCONDITION Report\n"
    r = tlc.run("SmtFile", None, cfg, files={"files.json": json.dumps(js)})
    if r.violated:
        raise tlc.TlcError("the specification violates %s" % r.violated)
    k = r.out.index('"READ"')
    nums = [int(x) for x in re.findall(r"\d+", r.out[k:r.out.index("Model checking", k)])][:len(js)]
    if len(nums) != len(js):
        raise tlc.TlcError("unreadable report")
    for n, j, m, it in zip(idx, js, nums, its):
        if m != len(j["cmds"]) + 2:
            why[n] = ("command %d cannot be read: %s" % (m, smt.unparse(it[m - 1])[:400]) if m <= len(it)
                      else "the file ends without one question asked")
    return why, r


# ways of obtaining a problem file: name, dialect, global options, options of to-file
TOFILE = [("to-file --cvc5", "smtlib", (), ("--cvc5",)), ("to-file", "vampire", (), ()), ("to-file --assert-theory", "vampire", (), ("--assert-theory",)),
          ("--no-preprocessing to-file --cvc5", "smtlib", ("--no-preprocessing",), ("--cvc5",)),
          ("--symbolic to-file --cvc5", "smtlib", ("--symbolic",), ("--cvc5",)),
          ("--symbolic --no-bitstring to-file --cvc5", "smtlib", ("--symbolic", "--no-bitstring"), ("--cvc5",)),
          ("--symbolic --legacy-evaluate --skolemnise to-file --cvc5", "smtlib", ("--symbolic", "--legacy-evaluate", "--skolemnise"), ("--cvc5",))]

# names a user may choose, that resemble those of the output
TRAPS = ["MX0", "MX1", "MX2", "iX0", "SX1", "X0", "x0", "evaluate", "cast", "eval", "find", "sk_", "subterm_nonce", "ta", "input_", "xor", "select", "store", "macro", "name", "dest_n_0", "h-1", "MX0_", "NX0", "CX1"]


def trapped(text, seed):
    """The same protocol with other names for its constants and its steps' parameters' sorts."""
    r = random.Random("trap/%s" % seed)
    used = set(re.findall(r"[A-Za-z][\w'-]*", text))
    ts = [t for t in TRAPS if t not in used]
    r.shuffle(ts)
    so = [x for x in ("Session", "Machine", "Node", "Client", "Branch", "b", "e") if x not in used]
    r.shuffle(so)
    for old in ("index", "session"):
        if old in used:
            text = re.sub(r"(?<![\w'-])%s(?![\w'-])" % old, so.pop(), text)
    for old in ("ok", "ko", "A", "B", "an", "bn", "h"):
        if old in used and ts and r.random() < .6:
            text = re.sub(r"(?<![\w'-])%s(?![\w'-])" % re.escape(old), ts.pop(), text)
    return text


def run(o, text, auto=True, squirrel=False):
    files, what = [], []
    for name, dialect, g, s in TOFILE if auto else TOFILE[:4 if squirrel else 1]:
        e = tool.emit(text, g, s, squirrel=squirrel)
        if e.rc != 0 or not e.files:
            o.violate("%s/nothing/%s" % (o.name, name), "nothing is written for a well-formed protocol (%s, exit %s)" % (name, e.rc), source=text, stderr=e.err[:2000])
            continue
        for _, t in e.files if squirrel else e.files[:1]:
            files.append((dialect, t))
            what.append(name)
    for n, t in tool.emit(text, lemmas=True).files if auto else ():
        files.append(("smtlib", t))
        what.append("to-file --lemmas --cvc5 (%s)" % n)
    if auto:
        r, fs = runner.capture(text, default="timeout", solvers=("z3", "vampire"))
        for n, t in fs:
            files.append(("vampire" if n.startswith("vampire") else "smtlib", t))
            what.append("auto (%s)" % n)
    why, r = read_all(files)
    if r:
        o.states += r.distinct
        o.transitions += r.states
    o.traces += len(files)
    o.evals += len(files)
    o.nontrivial += len(files)
    o.cov["files read"] = o.cov.get("files read", 0) + len(files)
    if o.sample is None:
        o.sample = dict(case=o.name, files=what[:6])
    for w, (d, t), y in zip(what, files, why):
        if y:
            o.violate("%s/%s" % (o.name, w), "%s: %s" % (w, y), source=text, emitted=t)
