"""Files judged by spec/Typing.tla, replayed against the tool."""
import copy
import json
import random
import re

import ptcl
import tlc
import tool


def q(s):
    return '"%s"' % s


# ------------------------------------------------------------ terms <-> nodes
def node(t):
    k = t[0]
    if k == "app":
        return ["app", t[1], [], [node(x) for x in t[2]]]
    if k == "macro":
        return ["macro", t[1], [], [node(x) for x in t[2]]]
    if k == "infix":
        return ["infix", {"<>": "!=", "===": "=="}.get(t[1], t[1]), [], [node(x) for x in t[2]]]
    if k == "let":
        return ["let", "", [list(t[1])], [node(t[2]), node(t[3])]]
    if k == "if":
        return ["if", "", [], [node(x) for x in t[1:]]]
    if k == "find":
        return ["find", "", [list(x) for x in t[1]], [node(x) for x in t[2:]]]
    return [k, "", [list(x) for x in t[1]], [node(t[2])]]


def src(n):
    k, f, b, c = n
    bs = "(%s)" % ", ".join("%s: %s" % tuple(x) for x in b)
    if k == "app":
        return f + ("(%s)" % ", ".join(map(src, c)) if c else "")
    if k == "macro":
        return f + "!" + ("(%s)" % ", ".join(map(src, c)) if c else "")
    if k == "infix":
        return "(" + (" %s " % f).join(map(src, c)) + ")"
    if k == "let":
        return "let %s: %s = %s in %s" % (b[0][0], b[0][1], src(c[0]), src(c[1]))
    if k == "if":
        return "if %s { %s } else { %s }" % tuple(map(src, c))
    if k == "find":
        return "try find %s such that { %s } then { %s } else { %s }" % ((bs,) + tuple(map(src, c)))
    return "%s %s { %s }" % (k, bs, src(c[0]))


def tla(x):
    if isinstance(x, str):
        return q(x)
    return "<<" + ", ".join(tla(y) for y in x) + ">>"


def fcn(d):
    if not d:
        return "<<>>"
    return "(" + " @@ ".join("(%s :> %s)" % (q(k), v) for k, v in d.items()) + ")"


class Fileform:
    """A file as slots that can be edited and printed back."""

    def __init__(self, text):
        p = self.p = ptcl.parse(text)
        self.text = text
        self.explicit_init = re.search(r"\bstep\s+init\b", text) is not None
        self.slots, self.asg = {}, {}
        self.macros = {m: [[list(x) for x in vs], node(t)] for m, (vs, t) in p.macros.items()}
        for s, d in p.steps.items():
            env = [list(x) for x in d["args"]] + [["in", "Message"]]
            self.slots["cond:" + s] = dict(step=s, env=env, realm="S", sort="Condition", term=node(d["cond"]))
            self.slots["msg:" + s] = dict(step=s, env=env, realm="S", sort="Message", term=node(d["msg"]))
            for i, (fv, c, a, t) in enumerate(d["asg"]):
                self.asg["%s:%d" % (s, i)] = dict(step=s, env=env, fresh=[list(x) for x in fv], cell=c, args=[node(x) for x in a], term=node(t))
        for k, ts in (("assert", p.asserts), ("lemma", p.lemmas), ("query", [p.query])):
            for i, t in enumerate(ts):
                self.slots["%s:%d" % (k, i)] = dict(step="", env=[], realm="E", sort="Bool", term=node(t))
        for i, (_, vs, g, a, _, b) in enumerate(p.orders):
            env = [list(x) for x in vs]
            if g is not None:
                self.slots["guard:%d" % i] = dict(step="", env=env, realm="E", sort="Bool", term=node(g))
            self.slots["left:%d" % i] = dict(step="", env=env, realm="E", sort="Step", term=node(a))
            self.slots["right:%d" % i] = dict(step="", env=env, realm="E", sort="Step", term=node(b))
        if not self.explicit_init:
            del self.slots["cond:init"], self.slots["msg:init"]

    def signature(self):
        p, f = self.p, {}
        d = lambda s: "Condition" if s == "Bool" else s
        for n, (a, o) in p.funs.items():
            f[n] = ([d(x) for x in a], d(o))
        for n, (a, o) in p.cells.items():
            f[n] = (list(a) + ["Step"], o)
        for n, x in p.steps.items():
            f[n] = ([s for _, s in x["args"]], "Step")
        return f

    def module(self):
        p = self.p
        sig = self.signature()
        steps = list(p.steps)
        consts = [n for n, (a, o) in p.funs.items() if not a]
        vs, pool = set(), [["app", "true", [], []], ["app", "init", [], []], ["app", "happens", [], [["app", "init", [], []]]], ["app", "in", [], []], ["app", "nosuch", [], []]]
        for s in self.slots.values():
            vs |= {x for x, _ in s["env"]}

            def walk(n):
                for x, _ in n[2]:
                    vs.add(x)
                for y in n[3]:
                    walk(y)
            walk(s["term"])
        vs = sorted(vs)[:6]
        pool += [["app", x, [], []] for x in consts[:2] + vs[:3]]
        tr, em = ["app", "true", [], []], ["app", "empty", [], []]
        pool += [["if", "", [], [tr, em, em]], ["infix", "==", [], [em, em]], ["app", "not", [], [tr]], ["app", "input", [], [["app", "init", [], []]]]]
        if p.types:
            z = [["zw", list(p.types)[0]]]
            pool += [["find", "", z, [tr, em, em]], ["forall", "", z, [tr]]]
        names = sorted(sig, key=lambda n: (len(sig[n][0]), n))[:7] + ["nosuch", "happens", "lt", "not"]
        L = ["---- MODULE TypingMC ----", "EXTENDS Typing",
             "cTypes == {%s}" % ", ".join(q(t) for t in p.types),
             "cFuns == " + fcn({n: "<<%s, %s>>" % (tla(a), q(o)) for n, (a, o) in sig.items()}),
             "cSteps == {%s}" % ", ".join(map(q, steps)),
             "cCells == " + fcn({n: tla(list(a)) for n, (a, o) in p.cells.items()}),
             "cMacros == " + fcn({n: tla(v) for n, v in self.macros.items()}),
             "cSlots == " + fcn({i: "[step |-> %s, env |-> %s, realm |-> %s, sort |-> %s, term |-> %s]" % (q(s["step"]), tla(s["env"]), q(s["realm"]), q(s["sort"]), tla(s["term"])) for i, s in self.slots.items()}),
             "cAsg == " + fcn({i: "[step |-> %s, env |-> %s, fresh |-> %s, cell |-> %s, args |-> %s, term |-> %s]" % (q(a["step"]), tla(a["env"]), tla(a["fresh"]), q(a["cell"]), tla(a["args"]), tla(a["term"])) for i, a in self.asg.items()}),
             "cPool == {%s}" % ", ".join(tla(x) for x in pool),
             "cNames == {%s}" % ", ".join(map(q, names)),
             "cVars == {%s}" % ", ".join(map(q, vs + ["nosuch"])),
             "cSortPool == {%s}" % ", ".join(map(q, list(p.types)[:2] + ["Message", "Step", "nosort"])),
             "cCryptos == " + tla([[n, list(fs)] for n, fs, _ in p.cryptos]), "===="]
        cfg = "SPECIFICATION Spec\nINVARIANT StartsWell\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(
            "  %s <- c%s\n" % (a, b) for a, b in (("Types", "Types"), ("Funs0", "Funs"), ("StepNames", "Steps"), ("Cells", "Cells"), ("Macros0", "Macros"),
                                                  ("Slots0", "Slots"), ("Asg0", "Asg"), ("Pool", "Pool"), ("Names", "Names"), ("Vars", "Vars"), ("SortPool", "SortPool"), ("Cryptos0", "Cryptos")))
        return "\n".join(L), cfg

    def edited(self, what):
        """The file after the edit, as text."""
        k, i, x = what
        f = copy.copy(self)
        f.slots, f.asg, f.macros = copy.deepcopy(self.slots), copy.deepcopy(self.asg), copy.deepcopy(self.macros)
        forget, twice = set(), set()
        if k == "slot":
            f.slots[i]["term"] = x
        elif k == "macro":
            f.macros[i][1] = x
        elif k == "asg":
            f.asg[i]["term"] = x
        elif k == "asgargs":
            f.asg[i]["args"] = x
        elif k == "fresh":
            f.asg[i]["fresh"] = x
        elif k == "sig":
            f.p = copy.copy(self.p)
            f.p.funs = dict(self.p.funs)
            f.p.funs[i] = (list(x[0]), "Bool" if x[1] == "Condition" else x[1])
        elif k in ("param", "dropparam"):
            f.p = copy.copy(self.p)
            f.p.steps = copy.deepcopy(self.p.steps)
            a = [list(y) for y in f.p.steps[i]["args"]]
            if k == "param":
                a[x[0] - 1][1] = x[1]
            else:
                a.pop()
            f.p.steps[i]["args"] = a
        elif k == "crypto":
            f.p = copy.copy(self.p)
            f.p.cryptos = list(self.p.cryptos)
            f.p.cryptos[int(i) - 1] = (x[0], list(x[1]), self.p.cryptos[int(i) - 1][2])
        elif k in ("forget", "forgetmacro", "forgettype"):
            forget.add((k, i))
        elif k == "twice":
            twice.add(i)
        return f.render(forget, twice)

    def render(self, forget=(), twice=()):
        p, L = self.p, []
        bind = lambda vs: "(%s)" % ", ".join("%s: %s" % tuple(x) for x in vs) if vs else ""

        def out(name, l):
            L.append(l)
            if name in twice:
                L.append(l)
        for t in p.types:
            if ("forgettype", t) not in forget:
                L.append("type " + t)
        for n, (a, o) in p.funs.items():
            if ("forget", n) not in forget:
                out(n, "fun %s%s: %s" % (n, "(%s)" % ", ".join(a) if a else "", o))
        for n, (a, o) in p.cells.items():
            out(n, "cell %s%s: %s" % (n, "(%s)" % ", ".join(a) if a else "", o))
        for n, (vs, t) in self.macros.items():
            if ("forgetmacro", n) not in forget:
                out(n, "let %s!%s = %s" % (n, bind(vs), src(t)))
        for n, d in p.steps.items():
            if n == "init" and not self.explicit_init:
                if n in twice:
                    L.append("step init { true } { empty }\nstep init { true } { empty }")
                continue
            asg = [self.asg["%s:%d" % (n, j)] for j in range(len(d["asg"]))]
            out(n, "step %s%s { %s } { %s }%s" % (n, bind(d["args"]), src(self.slots["cond:" + n]["term"]), src(self.slots["msg:" + n]["term"]),
                " { %s }" % ", ".join("%s %s <- %s" % (bind(a["fresh"]), src(["app", a["cell"], [], a["args"]]), src(a["term"])) for a in asg) if asg else ""))
        for i, (qk, vs, g, a, op, b) in enumerate(p.orders):
            gg = src(self.slots["guard:%d" % i]["term"]) + " => " if g is not None else ""
            L.append("order %s %s { %s%s %s %s }" % (qk, bind(vs), gg, src(self.slots["left:%d" % i]["term"]), op, src(self.slots["right:%d" % i]["term"])))
        for k, ts in (("assert", p.asserts), ("lemma", p.lemmas), ("query", [p.query])):
            for i in range(len(ts)):
                L.append("%s %s" % (k, src(self.slots["%s:%d" % (k, i)]["term"])))
        for n, fs, os_ in p.cryptos:
            L.append("assert-crypto %s;" % " ".join([n] + fs + (["[%s]" % " ".join(os_)] if os_ else [])))
        return "\n".join(L) + "\n"


def judged(text, timeout=300):
    """[(edit, verdict)] by TLC"""
    f = Fileform(text)
    m, c = f.module()
    r = tlc.run("TypingMC", m, c, timeout=timeout, workers=1)
    if r.violated:
        raise tlc.TlcError("the specification refuses the unedited file:\n" + text)
    out = []
    for chunk in re.findall(r'<<\s*"M",.*?(?:"accept"|"refuse"|"unknown")\s*>>', r.out, re.S):
        j = json.loads(re.sub(r"\s*\n\s*", " ", chunk).replace("<<", "[").replace(">>", "]"))
        out.append((j[1], j[2]))
    return f, out, r


def run(o, text, seed, n, timeout=20):
    f, es, r = judged(text)
    o.states += r.distinct
    o.transitions += r.states
    rnd = random.Random("%s" % seed)
    by = {}
    for w, v in es:
        o.cov["files judged '%s'" % v] = o.cov.get("files judged '%s'" % v, 0) + 1
        if v != "unknown":
            by.setdefault((v, w[0], str(w[1]).split(":")[0] if w[0] == "slot" else ""), []).append(w)
    # each kind of edit gets its turn
    pick, gs = [], [by[k] for k in sorted(by)]
    ks = sorted(by)
    for l in gs:
        rnd.shuffle(l)
    while len(pick) < n and any(gs):
        for k, l in zip(ks, gs):
            if l:
                pick.append((l.pop(), k[0]))
    for w, v in pick:
        t = f.edited(w)
        e = tool.emit(t, timeout=timeout)
        o.evals += 1
        o.nontrivial += 1
        good = e.rc == 0 and bool(e.files) and bool(e.files[0][1].strip())
        if e.rc is None:
            o.violate("%s/hang/%s" % (o.name, w[:2]), "the tool does not terminate", source=t, edit=json.dumps(w))
        elif v == "accept" and not good:
            o.violate("%s/refused/%s" % (o.name, w[:2]), "a well-formed file is refused (exit %s)" % e.rc, source=t, edit=json.dumps(w), stderr=e.err[:2000])
        elif v == "refuse" and e.rc == 0:
            o.violate("%s/accepted/%s" % (o.name, w[:2]), "an ill-formed file is accepted", source=t, edit=json.dumps(w))
        if o.sample is None:
            o.sample = dict(case=o.name, edit=w, verdict=v)
    o.traces += len(pick)


def run_fixed(o, key, text, timeout=10):
    """One well-formed file given as such."""
    e = tool.emit(text, timeout=timeout)
    o.evals += 1
    o.nontrivial += 1
    o.traces += 1
    if e.rc != 0 or not e.files or not e.files[0][1].strip():
        o.violate(key, "a well-formed file gets no answer (exit %s)" % ("none within %d s" % timeout if e.rc is None else e.rc), source=text)
