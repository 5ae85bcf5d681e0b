"""Shared machinery of the checks: case pool, replay files, evidence, known findings, exit codes."""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import sys
import time
import traceback

import learn
import runner
import smt
import squirrel
import tlagen
import tlc
import tool
import world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
CORPUS = os.path.join(VERIF, "corpus")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Outcome:
    """What one case covered, and what it found."""

    def __init__(self, name):
        self.name = name
        self.states = self.transitions = self.traces = 0
        self.evals = 0              # judgements about the real tool
        self.nontrivial = 0         # of which non vacuous
        self.violations = []        # (key, human readable, replay dict)
        self.error = None           # the machinery could not decide
        self.skipped = None         # no time to decide
        self.sample = None
        self.cov = {}

    def violate(self, key, text, **replay):
        self.violations.append((key, text, replay))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.cases = []
        self.assumptions = []
        self.rule = ""
        self.level = "model_checking"

    def add(self, name, fn, *a, **k):
        self.cases.append((name, fn, a, k))

    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("finding: property=%s " % self.pid):
                    key, _, text = l.split(" ", 2)[2].partition(" | ")
                    out.append((key.strip(), text.strip()))
        return out

    def _one(self, c):
        name, fn, a, k = c
        o = Outcome(name)
        t0 = time.time()
        if self.tier == "quick" and t0 - self.t0 > 600:
            o.skipped = "no time left"
            return o
        try:
            fn(o, *a, **k)
        except tlc.TlcTimeout as e:
            o.skipped = str(e)
        except (tlc.TlcError, tlagen.GenError, tool.ToolError, smt.SmtError) as e:
            o.error = "%s: %s" % (type(e).__name__, str(e)[-1500:])
        except Exception:
            o.error = traceback.format_exc()[-1500:]
        o.wall = time.time() - t0
        return o

    def run(self):
        tlc.CAP[0] = 200 if self.tier == "quick" else None
        try:
            tool.build()
        except tool.ToolError as e:
            print("cannot build the tool under test:\n%s" % e)
            return 2
        rdir = os.path.join(EVID, "replay", self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            outs = list(ex.map(self._one, self.cases))
        if os.environ.get("VERIF_TIMES"):
            for o in sorted(outs, key=lambda o: -o.wall)[:8]:
                print("  %6.1fs %6d states  %s" % (o.wall, o.states, o.name))
        known = self.known()
        nviol, kf = 0, {}
        for o in outs:
            for key, text, rep in o.violations:
                m = [k for k in known if k[0] == key or k[0].endswith("/*") and key.startswith(k[0][:-1])]
                if m:
                    kf.setdefault(m[0], 0)
                    continue
                nviol += 1
                if nviol > 20:
                    continue
                os.makedirs(rdir, exist_ok=True)
                h = hashlib.sha1((o.name + key).encode()).hexdigest()[:10]
                path = os.path.join(rdir, h + ".txt")
                with open(path, "w") as f:
                    f.write("property %s, case %s\n%s\nkey: %s\n" % (self.pid, o.name, text, key))
                    for k, v in rep.items():
                        f.write("\n==== %s ====\n%s\n" % (k, v))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  %s: %s" % (o.name, text.splitlines()[0][:300]))
        for (key, text) in kf:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        errs = [o for o in outs if o.error]
        self.evidence(outs, nviol, len(kf))
        for o in errs[:10]:
            print("UNDECIDED %s: %s" % (o.name, o.error))
        late = [o for o in outs if o.skipped]
        for o in late[:10]:
            print("not explored to the end: %s (%s)" % (o.name, o.skipped))
        print("%s %s: %d cases, %d states, %d judgements, %d violation(s), %d undecided, %.0fs"
              % (self.pid, self.tier, len(outs), sum(o.states for o in outs), sum(o.evals for o in outs), nviol, len(errs), time.time() - self.t0))
        if nviol:
            return 1
        return 2 if errs or 2 * len(late) > len(outs) else 0

    def evidence(self, outs, nviol, nknown):
        os.makedirs(EVID, exist_ok=True)
        samples = [o.sample for o in outs if o.sample][:5] or [o.name for o in outs[:5]]
        st = sum(o.states for o in outs)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=st, transitions=sum(o.transitions for o in outs),
                                traces_validated_against_impl=sum(o.traces for o in outs),
                                evaluations=sum(o.evals for o in outs),
                                distinct_nontrivial=sum(o.nontrivial for o in outs),
                                rule=self.rule, samples=samples),
                  wall_s=round(time.time() - self.t0, 1), violations=nviol, assumptions=self.assumptions)
        cov = {}
        for o in outs:
            for k, v in o.cov.items():
                cov[k] = cov.get(k, 0) + v
        ev["coverage"]["worlds_by_kind"] = cov
        ev["coverage"]["cases"] = len(outs)
        ev["coverage"]["not_explored_to_the_end"] = sum(1 for o in outs if o.skipped)
        ev["coverage"]["known_findings_met"] = nknown
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)


# ------------------------------------------------------------------ worlds
def emit_one(o, text, glob=(), sub=("--cvc5",)):
    """Emits `text' (which the language accepts); None and a violation if the tool refuses."""
    e = tool.emit(text, glob, sub)
    if e.rc is None:
        o.violate("hang", "the tool does not terminate on a well-formed protocol", source=text)
        return None
    if e.rc != 0 or not e.files or not e.files[0][1].strip():
        o.violate("refused", "the tool produces no theory for a well-formed protocol (exit %s)" % e.rc,
                  source=text, stderr=e.err[:3000])
        return None
    return e.files[0][1]


def run_world(o, text, faults=(), sections=None, exact=None, faithful=False, maxlen=None, budget=(500, 20000, 60), glob=(),
              sub=("--cvc5",), sizes=None, timeout=600, emitted=None, opts=None):
    """Emit, translate, let TLC look for an execution contradicting the specification."""
    em = emitted if emitted is not None else emit_one(o, text, glob, sub)
    if em is None:
        return
    bad = None
    try:
        f = smt.File(em)
        bad = smt.check(f)
    except smt.SmtError as e:
        bad = str(e)
    if bad:
        o.violate("malformed", "the emitted theory is not well-formed: %s" % bad, source=text, emitted=em)
        return
    g = tlagen.Gen(text, sizes=sizes, maxlen=maxlen)
    if opts:
        for k, v in opts.items():
            setattr(g, k, v)
    m, c, info = world.build(g, f, faults, sections, exact, faithful, budget=budget)
    r = tlc.run("MC", m, c, timeout=timeout)
    o.states += r.distinct
    o.transitions += r.states
    o.traces += 1
    cov = world.covered(r.out)
    for k, v in cov.items():
        o.cov[k] = o.cov.get(k, 0) + v
    o.evals += len(info["invs"]) * max(r.distinct, 1)
    o.nontrivial += len(info["invs"])
    if o.sample is None:
        o.sample = dict(case=o.name, worlds=cov, invariants=len(info["invs"]))
    if r.violated:
        ax = r.violated.replace("Sound_", "")
        what = ""
        if ax in info["axioms"]:
            what = "section %s: %s" % (info["axioms"][ax], smt.unparse(f.theory()[int(ax[3:]) - 1][2]))
        kind = r.violated.split("_")[0]
        expl = {"Sound": "an emitted assumption is false in a real execution",
                "Exact": "the emitted theory does not exclude a defective execution",
                "Faithful": "the emitted formula does not mean what the source says",
                "WellFormed": "internal: the specification itself is broken"}.get(kind, kind)
        key = "%s/%s" % (o.name, r.violated if kind != "Sound" else "Sound/" + hashlib.sha1(what.encode()).hexdigest()[:8])
        o.violate(key, "%s (%s) %s" % (expl, r.violated, what[:400]), source=text, trace=r.trace, axiom=what, emitted=em)


def run_staged(o, text, budget=(400, 5000, 6), timeout=600):
    """Every problem the tool makes of a file with lemmas assumes and asks what the file says."""
    g = tlagen.Gen(text)
    n = len(g.p.lemmas)
    want = {}       # way of running -> [(name, text)]
    e = tool.emit(text, lemmas=True)
    def refused(what, rc, err):
        o.violate("%s/refused/%s" % (o.name, what), "no problem is produced for a well-formed protocol (%s, exit %s)" % (what, rc), source=text, stderr=err[:3000])
    if e.rc != 0:
        return refused("to-file --lemmas", e.rc, e.err)
    want["to-file --lemmas"] = (sorted(e.files, key=lambda x: (len(x[0]), x[0])), True)
    e = tool.emit(text)
    if e.rc != 0:
        return refused("to-file", e.rc, e.err)
    want["to-file"] = (e.files, False)
    for opts, wl in ((("--lemmas",), True), ((), False), (("--lemmas", "--ignore-lemmas"), False)):
        r, fs = runner.capture(text, opts=opts)
        if r.rc != 0:
            return refused("auto " + " ".join(opts), r.rc, r.err)
        want["auto " + " ".join(opts)] = (fs, wl)
    probs, seen = [], {}
    for what, (fs, wl) in want.items():
        k = n + 1 if wl else 1
        if len(fs) != k:
            o.violate("%s/number/%s" % (o.name, what), "%d problems instead of %d (%s)" % (len(fs), k, what), source=text)
            return
        for i, (_, t) in enumerate(fs):
            spec = (i, 0 if i == n else i + 1) if wl else (0, 0)
            key = (re.sub(r"^;.*$", "", t, flags=re.M), spec)
            if key not in seen:
                f = smt.File(t)
                bad = smt.check(f)
                if bad:
                    o.violate("%s/malformed" % o.name, "the emitted theory is not well-formed: %s" % bad, source=text, emitted=t)
                    return
                seen[key] = len(probs)
                probs.append(("%s, problem %d" % (what, i + 1), f) + spec)
            o.evals += 1
    m, c, info = world.build_staged(g, probs, budget=budget)
    r = tlc.run("MC", m, c, timeout=timeout)
    o.states += r.distinct
    o.transitions += r.states
    o.traces += len(probs)
    o.nontrivial += len(info["invs"])
    o.evals += len(info["invs"]) * r.distinct
    o.cov["problem files"] = len(probs)
    if o.sample is None:
        o.sample = dict(case=o.name, lemmas=n, problems=[p[0] for p in probs])
    if r.violated:
        j = int(r.violated.split("_")[1])
        o.violate("%s/%s" % (o.name, r.violated), "%s: %s" % (probs[j][0],
                  "the assumptions are not the assertions and the earlier lemmas" if r.violated.startswith("Assumes") else "the goal is not the one of the file"),
                  source=text, trace=r.trace, emitted="\n".join(smt.unparse(x) for x in probs[j][1].order))


MODES = [("to-file", (), ()), ("to-file --assert-theory", (), ("--assert-theory",)), ("--no-preprocessing to-file --cvc5", ("--no-preprocessing",), ("--cvc5",)),
         ("--skolemnise to-file --cvc5", ("--skolemnise",), ("--cvc5",))]

# options that change nothing here: each protocol gets some of them
IDLE = ["--crypto-rewrite", "--eval-rewrite", "--legacy-evaluate", "--no-bitstring"]
# ways of keeping terms apart from what they evaluate to
SYMBOLIC = [(), ("--legacy-evaluate",), ("--no-bitstring",), ("--eval-rewrite",), ("--skolemnise",), ("--legacy-evaluate", "--no-bitstring"), ("--crypto-rewrite",), ("--no-preprocessing",), ("--vampire-subterm",)]


def run_modes(o, text, faults=("msg", "cond", "exec", "mem", "guess", "forge", "aux"), budget=(300, 20000, 8), timeout=600):
    """However a problem is obtained, it assumes and asks the same."""
    em = emit_one(o, text)
    if em is None:
        return
    fs = [("to-file --cvc5", em)]
    i0 = sum(map(ord, o.name))
    i = i0 % len(IDLE)
    g = [x for x in (IDLE[i], IDLE[(i + 2) % len(IDLE)])]
    sym = [("--symbolic",) + x for x in (SYMBOLIC[0], SYMBOLIC[1 + i0 % (len(SYMBOLIC) - 1)])]
    for n, g, s in MODES + [("%s to-file --cvc5" % " ".join(g), g, ("--cvc5",)) for g in [g] + sym]:
        e = tool.emit(text, g, s)
        if e.rc != 0 or not e.files:
            o.violate("%s/refused/%s" % (o.name, n), "no problem is produced for a well-formed protocol (%s, exit %s)" % (n, e.rc), source=text, stderr=e.err[:3000])
            return
        fs.append((n, e.files[0][1]))
    for s in ("z3", "vampire"):
        r, got = runner.capture(text, default="timeout", solvers=(s,), opts=("--num-of-retry", "1") + (("--ignore-lemmas",) if "\nlemma" in text else ()))
        if len(got) != 1:
            o.violate("%s/auto" % o.name, "%s was given %d files instead of 1" % (s, len(got)), source=text, stderr=r.err[:3000])
            return
        fs.append(("auto, " + s, got[0][1]))
    files = []
    for n, t in fs:
        try:
            f = smt.File(t)
            bad = smt.check(f)
        except smt.SmtError as e:
            bad = str(e)
        if bad:
            o.violate("%s/malformed/%s" % (o.name, n), "%s: the emitted theory is not well-formed: %s" % (n, bad), source=text, emitted=t)
            return
        files.append((n, f))
    m, c, info = world.build_modes(tlagen.Gen(text), files, faults, weaker={j for j, (n, _) in enumerate(files) if n.startswith("--no-preprocessing")},
                                  partly={j for j, (n, _) in enumerate(files) if "--symbolic" in n}, budget=budget)
    r = tlc.run("MC", m, c, timeout=timeout)
    o.states += r.distinct
    o.transitions += r.states
    o.traces += len(files)
    o.evals += len(info["invs"]) * r.distinct
    o.nontrivial += len(info["invs"])
    for k, v in world.covered(r.out).items():
        o.cov[k] = o.cov.get(k, 0) + v
    if o.sample is None:
        o.sample = dict(case=o.name, ways=[n for n, _ in files])
    if r.violated:
        j = int(r.violated.split("_")[1])
        o.violate("%s/%s" % (o.name, r.violated), "%s does not %s what to-file --cvc5 does" % (files[j][0], "assume" if r.violated.startswith("Same") else "ask"),
                  source=text, trace=r.trace, reference=fs[0][1], emitted=fs[j][1])


def run_squirrel(o, seed, scheme=None, **k):
    """The problems made of a Squirrel dump are about the systems it describes."""
    dump = squirrel.generate(seed, scheme)
    js = dump.json()
    e = tool.emit(js, squirrel=True)
    if e.rc != 0:
        o.violate("%s/refused" % o.name, "no problem is produced for a well-formed dump (exit %s)" % e.rc, source=js, stderr=e.err[:3000], means=dump.spec(0))
        return
    fs = [t for _, t in sorted(e.files, key=lambda x: (x[0].count("/"), x[0]))]
    if len(fs) != len(dump.systems):
        o.violate("%s/systems" % o.name, "%d problems for %d systems" % (len(fs), len(dump.systems)), source=js, means=dump.spec(0))
        return
    names = sorted(dump.systems)
    for i, s in enumerate(dump.systems):
        n0 = len(o.violations)
        run_world(o, dump.spec(i), emitted=fs[names.index(s)], **k)
        for v in o.violations[n0:]:
            v[2]["dump"] = js


def run_learn(o, text, seed, rounds=2, faults=(), **k):
    """The theory after Vampire printed something: still true in every real execution, and no weaker."""
    em = emit_one(o, text)
    if em is None:
        return
    f = smt.File(em)
    heads = [h for h in ("hash", "verify", "sign", "checksign", "dec") if h in f.funs]
    c = learn.Clauses(seed, f, heads)
    outs = [c.text(4) for _ in range(rounds)]
    r, fs = runner.capture(text, default="extra", solvers=("vampire", "z3"), opts=("--num-of-retry", str(rounds + 1)), outs=outs)
    zs = [t for n, t in fs if n.startswith("z3")]
    if not zs or r.rc is None:
        o.violate("%s/noanswer" % o.name, "the tool does not survive what Vampire printed (exit %s, %s)" % (r.rc, " ".join(r.err.split())[-200:]), source=text, stderr=r.err[:3000], vampire="\n".join(outs))
        return
    o.cov["rounds"] = o.cov.get("rounds", 0) + len(zs)
    strip = lambda t: re.sub(r"_\d+\$", "_$", re.sub(r"^;.*$", "", t, flags=re.M))
    o.cov["theories changed by learning"] = o.cov.get("theories changed by learning", 0) + (1 if strip(zs[-1]) != strip(zs[0]) else 0)
    n0 = len(o.violations)
    run_world(o, text, faults=faults, emitted=zs[-1], **k)
    for i in range(n0, len(o.violations)):
        o.violations[i][2]["vampire"] = "\n".join(outs)


def literals(cl):
    """The ways Vampire prints a check: `p' a predicate, or `a ; b' two terms it compares."""
    a = cl.split(" ; ")
    if len(a) == 1:
        return [("pos", a[0]), ("neg", "~" + a[0])]
    x, y = a
    return [("eq", "%s = %s" % (x, y)), ("neq", "%s != %s" % (x, y)), ("qe", "%s = %s" % (y, x)), ("qen", "%s != %s" % (y, x))]


CLAUSES = [("alone", "%s"), ("first", "%s | happens(X7)"), ("last", "~happens(X7) | lt(X7,X8) | %s"), ("mid", "X7 = X8 | %s | ~leq(X8,X7)"), ("avatar", "%s <- (~3, 8)")]


def learnt(text):
    """(form, what Vampire prints) for the check of the protocol."""
    cl = re.search(r"/\*@ learn (.*?) \*/", text).group(1)
    for i, (a, l) in enumerate(literals(cl)):
        for b, c in CLAUSES if i < 2 else CLAUSES[i % len(CLAUSES):][:1]:
            yield a + "-" + b, c % l


def run_learnt(o, text, clause):
    """A check Vampire came across gets its unforgeability assumption in the next round."""
    out = "%% noise\n[SA] new: 4. %s [resolution 1,2]\n%% Time limit reached!\n" % clause
    r, fs = runner.capture(text, default="extra", solvers=("vampire", "z3"), opts=("--num-of-retry", "2"), outs=[out])
    zs = [t for n, t in fs if n.startswith("z3")]
    if len(zs) != 2:
        o.violate("%s/round" % o.name, "there is no second round although Vampire reported a new instance", source=text, stderr=r.err[:3000], vampire=out)
        return
    n0 = len(o.violations)
    run_world(o, text, faults=("forge",), emitted=zs[1])
    for v in o.violations[n0:]:
        v[2]["vampire"] = out


def run_design(o, name, cfg):
    r = tlc.run(name, None, cfg)
    if r.violated:
        raise tlc.TlcError("the specification violates %s" % r.violated)
    o.states += r.distinct
    o.transitions += r.states


def run_order(o, text, n=3, timeout=800):
    """All interpretations of the order vocabulary over n elements that satisfy the emitted axioms."""
    em = emit_one(o, text)
    if em is None:
        return
    f = smt.File(em)
    bad = smt.check(f)
    if bad:
        o.violate("malformed", "the emitted theory is not well-formed: %s" % bad, source=text, emitted=em)
        return
    g = tlagen.Gen(text)
    m, c, info = world.build_order(g, f, n)
    r = tlc.run("MC", m, c, timeout=timeout)
    o.states += r.distinct
    o.transitions += r.states
    o.traces += 1
    o.evals += r.distinct
    k = r.out.find('"MODELS", ')
    nm = int(r.out[k + 10:r.out.find(">>", k)]) if k >= 0 else 0
    o.nontrivial += nm
    o.cov["order structures satisfying the theory"] = nm
    if r.violated:
        o.violate("%s/%s" % (o.name, r.violated), "the emitted theory admits an order of steps that is not an execution order",
                  source=text, trace=r.trace, emitted=em)
    elif not nm:
        o.violate("%s/inconsistent" % o.name, "the emitted ordering axioms exclude every execution order (over %d elements)" % n,
                  source=text, emitted=em)


def main(table):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    a = ap.parse_args()
    c = Check(a.property, a.tier, a.seed)
    table[a.property](c)
    if a.only:
        c.cases = [x for x in c.cases if a.only in x[0]]
    sys.exit(c.run())
