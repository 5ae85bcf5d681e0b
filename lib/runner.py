"""The automatic mode played against the specification spec/Portfolio.tla with stand-in solvers."""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import tempfile
import time

import smt
import tlc
import tool

FAKE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks", "fake", "solver.sh")
RUN_TIMEOUT = 100       # a stand-in that lost the race hangs for 120 s: the tool must not wait for it


def protocol(nlemmas):
    """A protocol with nlemmas lemmas; problem k mentions the constant mark<k> in its goal."""
    L = ["type index", "fun tpl(Message, Message): Message", "fun fst(Message): Message", "fun snd(Message): Message",
         "fun mac(Message, Message): Message", "fun verify(Message, Message, Message): Bool", "fun ok(): Message",
         "fun n(index): Name", "fun key(): Name"]
    L += ["fun mark%d(): Message" % (k + 1) for k in range(nlemmas + 1)]
    L += ["step A(i: index) { true } { tpl(n(i), mac(n(i), key)) }",
          "step B(i: index) { verify(snd(in), fst(in), key) } { ok }"]
    g = "forall (i: index) { (happens(B(i)) => (mark%d != n(i))) }"
    L += ["lemma " + g % (k + 1) for k in range(nlemmas)]
    L += ["query " + g % (nlemmas + 1), "assert-crypto uf-cma mac verify;", "assert-crypto nonce;"]
    return "\n".join(L) + "\n"


class Played:
    pass


def goal_of(text):
    """Which problem a file handed to a solver is about (0: none the user asked for)."""
    try:
        m = set(re.findall(r"mark(\d+)", smt.unparse(smt.File(text).query())))
    except (smt.SmtError, IndexError):
        return 0
    return int(m.pop()) if len(m) == 1 else 0


def mac_clause(k):
    """A new clause about a mac; the k-th is different from the others."""
    t = "ok"
    for _ in range(k):
        t = "tpl(%s,ok)" % t
    return "[SA] new: %d. %s = mac(%s,%s) [resolution 1,2]\n" % (100 + k, "fst(ok)", t, "ok")


# how the tool is asked to run: (arguments before the solvers', the lemmas are problems of their own)
MODES = {"lemmas": (["--lemmas"], True), "query": ([], False), "ignore": (["--lemmas", "--ignore-lemmas"], False),
         "default": (None, True)}


def play(script, np, maxtries, solvers, fmt="stdout", timeout_opt="7", mode="lemmas", extra=0):
    """Runs the real tool against the script [(pb, try, solver, answer)].  Returns Played."""
    d = tempfile.mkdtemp(prefix="play_")
    try:
        run = os.path.join(d, "run")
        os.mkdir(run)
        src = os.path.join(d, "p.ptcl")
        open(src, "w").write(protocol(np - 1 if MODES[mode][1] else extra))
        bins = {}
        for s in ("vampire", "z3"):
            b = os.path.join(d, s)
            os.symlink(FAKE, b)
            bins[s] = b
        # rounds in order
        rounds = []
        for p, t, s, a in script:
            if not rounds or rounds[-1][0] != (p, t):
                rounds.append(((p, t), []))
            rounds[-1][1].append((s, a))
        learned, here = 0, {}
        first = 1 if MODES[mode][1] else extra + 1
        for (p, t), evs in rounds:
            i = "%d.%d" % (p + first - 1, t)
            prev = None
            for s, a in evs:
                open(os.path.join(run, "script.%s.%s" % (s, i)), "w").write("%s %s\n" % (prev or "-", a))
                if a == "new":
                    learned += 1
                    here[p] = learned
                if a in ("new", "again") and p in here:
                    open(os.path.join(run, "out.%s.%s" % (s, i)), "w").write("% some noise\n" + mac_clause(here[p]) + "% Time limit reached!\n")
                prev = "%s.%s" % (s, i)
            for s in solvers:
                if s not in [x for x, _ in evs]:
                    open(os.path.join(run, "script.%s.%s" % (s, i)), "w").write("- hang\n")
        args = [tool.BIN, src, "--output-format", fmt]
        e = tool.env()
        if MODES[mode][0] is None:
            # no subcommand: the solvers are looked up in the path
            e["PATH"] = d + ":" + ":".join(x for x in e["PATH"].split(":") if x and not any(os.path.exists(os.path.join(x, s)) for s in ("z3", "vampire")))
            for s in ("vampire", "z3"):
                if s not in solvers:
                    os.remove(bins[s])
        else:
            args += ["auto"] + MODES[mode][0]
            if maxtries is not None:
                args += ["--num-of-retry", str(maxtries)]
            args += ["--timeout", timeout_opt]
            for s in ("vampire", "z3"):
                args += ["--%s-location" % s, bins[s]] if s in solvers else ["--disable-" + s]
            args += ["--disable-cvc5"]
        e["CV_FAKE"] = run
        e["TMPDIR"] = d
        r = Played()
        t0 = time.time()
        pr = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=d, text=True, errors="replace",
                              start_new_session=True, preexec_fn=tool._limits)
        try:
            r.out, r.err = pr.communicate(timeout=RUN_TIMEOUT)
            r.rc = pr.returncode
        except subprocess.TimeoutExpired:
            r.rc = None
            r.out = r.err = ""
        r.wall = time.time() - t0
        # who is still there?
        r.alive = []
        pids = {}
        for x in os.listdir(run):
            f = os.path.join(run, x, "pid")
            if os.path.exists(f):
                pids[x] = int(open(f).read())
        lim = time.time() + 1
        while True:
            r.alive = sorted(x for x, p in pids.items() if _mine(p, run))
            if not r.alive or time.time() > lim:
                break
            time.sleep(.02)
        if r.rc is None:
            pr.kill()
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if r.rc is None:
            pr.communicate()
        r.files = {}
        r.args = {}
        for x in os.listdir(run):
            f = os.path.join(run, x, "in")
            if os.path.exists(f):
                r.files[x] = open(f, errors="replace").read()
            f = os.path.join(run, x, "args")
            if os.path.exists(f):
                r.args[x] = open(f).read().split("\n")
        lg = os.path.join(run, "log")
        r.log = [l.split() for l in open(lg)] if os.path.exists(lg) else []
        r.cmd = " ".join(args)
        r.left = sorted(x for x in os.listdir(d) if x not in ("run", "p.ptcl", "vampire", "z3"))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _mine(pid, run):
    try:
        if ("CV_FAKE=" + run) not in open("/proc/%d/environ" % pid, errors="replace").read():
            return False
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] != "Z"
    except OSError:
        return False


def verdict(r, fmt, np):
    """(verdict, tries) as a user reads them off the output."""
    if fmt in ("json", "pretty-json"):
        try:
            j = json.loads(r.out)
        except ValueError:
            return "ko" if r.rc not in (0, None) else "garbled", []
        if "Ok" in j:
            return "ok", [int(x) for x in re.findall(r'"num_tries":\s*(\d+)', json.dumps(j))]
        return "ko", []
    if fmt == "quiet":
        return ("ok" if r.rc == 0 else "ko"), None
    if r.rc == 0:
        return "ok", [int(x) for x in re.findall(r"proven in (\d+) tries", r.err + r.out)]
    return "ko", []


def tla_trace(r, np, maxtries, solvers, fmt, mode="lemmas", extra=0):
    ev = []
    first = 1 if MODES[mode][1] else extra + 1
    for l in r.log:
        x = "%s.%s" % (l[1], l[2])
        if l[0] == "start":
            ev.append('[e |-> "start", s |-> "%s", p |-> %d]' % (l[1], max(goal_of(r.files.get(x, "")) - first + 1, 0)))
        else:
            ev.append('[e |-> "answer", s |-> "%s", a |-> "%s"]' % (l[1], l[3]))
    v, t = verdict(r, fmt, np)
    if t is None:
        ev.append('[e |-> "exit", v |-> "%s"]' % v)
    else:
        ev.append('[e |-> "exit", v |-> "%s", t |-> <<%s>>]' % (v, ", ".join(str(x) for x in t)))
    return '[conf |-> [np |-> %d, max |-> %d, solvers |-> {%s}], log |-> <<%s>>]' % (
        np, maxtries, ", ".join('"%s"' % s for s in sorted(solvers)), ",\n ".join(ev))


def scripts(np, mx, solvers, va, za):
    st = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    m = "---- MODULE MC ----\nEXTENDS PortfolioScripts\nC_S == %s\nC_VA == %s\nC_ZA == %s\n====\n" % (st(solvers), st(va), st(za))
    c = "SPECIFICATION Spec\nCONSTANTS\n Np = %d\n Max = %d\n Solvers <- C_S\n VA <- C_VA\n ZA <- C_ZA\nCONSTRAINT Short\nINVARIANT Emit\nINVARIANT Honest\nINVARIANT NoOrphan\nINVARIANT Staged\nINVARIANT Decided\nCHECK_DEADLOCK FALSE\n" % (np, mx)
    r = tlc.run("MC", m, c)
    if r.violated:
        raise tlc.TlcError("the specification violates %s" % r.violated)
    out = {}
    for x in re.findall(r'<<\s*"SCRIPT",(.*?)>>\s*\n(?=<<|[A-Z])', re.sub(r"\s+\n", "\n", r.out) + "\nEND", re.S):
        evs = tuple((int(a), int(b), s, w) for a, b, s, w in re.findall(r'<<(\d+), (\d+), "(\w+)", "(\w+)">>', x))
        out[evs] = re.findall(r'"(ok|ko)"', x)[-1]
    return out, r


def check_traces(traces):
    """For each trace the number of events that could be followed."""
    m = "---- MODULE MC ----\nEXTENDS PortfolioTrace\nC_Traces == <<\n%s\n>>\n====\n" % ",\n".join(traces)
    c = ("SPECIFICATION TSpec\nCONSTANT Traces <- C_Traces\nCHECK_DEADLOCK FALSE\nINVARIANT Progress\nPOSTCONDITION Report\n"
         "INVARIANT Honest\nINVARIANT NoOrphan\nINVARIANT Staged\nINVARIANT Bounded\nINVARIANT Decided\n")
    r = tlc.run("MC", m, c)
    if r.violated:
        raise tlc.TlcError("the specification violates %s" % r.violated)
    k = r.out.index('"FOLLOWED"')
    nums = [int(x) - 1 for x in re.findall(r"\d+", r.out[k:r.out.index("Model checking", k)])][:len(traces)]
    if len(nums) != len(traces):
        raise tlc.TlcError("unreadable trace report")
    return nums, r


class Item:
    def __init__(self, script, np, mx, solvers, fmt, opt=True, mode="lemmas", extra=0):
        self.script, self.np, self.mx, self.solvers, self.fmt, self.opt = script, np, mx, tuple(solvers), fmt, opt
        self.mode, self.extra = mode, extra

    def __str__(self):
        return "mode %s, %d problem(s), at most %s tries, solvers %s, output %s: %s" % (
            self.mode, self.np, self.mx or "unbounded", "+".join(self.solvers) or "none", self.fmt,
            " ".join("%d.%d:%s=%s" % x for x in self.script) or "-")


def run_batch(o, items, aspect):
    """aspect: "verdict" (what is reported) or "process" (what is run, and what is left behind)."""
    traces, runs = [], []
    for it in items:
        r = play(it.script, it.np, it.mx if it.opt else None, it.solvers, it.fmt, mode=it.mode, extra=it.extra)
        runs.append(r)
        traces.append(tla_trace(r, it.np, it.mx, it.solvers, it.fmt, it.mode, it.extra))
    nums, t = check_traces(traces)
    o.states += t.distinct
    o.transitions += t.states
    for it, r, tr, n in zip(items, runs, traces, nums):
        o.traces += 1
        o.evals += 1
        o.nontrivial += 1 if it.script else 0
        ln = len(r.log) + 1
        rep = dict(scenario=str(it), trace=tr, command=r.cmd, stdout=r.out[:3000], stderr=r.err[:3000])
        key = "%s/" % it
        if r.rc is None:
            if aspect == "process":
                o.violate(key + "hang", "the tool does not end although a solver has decided: %s" % it, **rep)
            continue
        if n < ln:
            ev = tr[tr.index("log |->"):].split(",\n ")
            what = ev[n][:160] if n < len(ev) else "?"
            if aspect == "verdict" or n < ln - 1:
                o.violate(key + "trace", "the run is not a behaviour of the specification, event %d of %d is impossible (%s): %s"
                          % (n + 1, ln, what, it), **rep)
        if aspect == "process":
            if r.alive:
                o.violate(key + "orphan", "solver processes outlive the tool (%s): %s" % (", ".join(r.alive), it), **rep)
            if r.left:
                o.violate(key + "files", "files are left behind (%s): %s" % (", ".join(r.left), it), **rep)
            for x, a in r.args.items() if it.mode != "default" else ():
                if x not in ["%s.%s" % (l[1], l[2]) for l in r.log if l[0] == "start"]:
                    continue        # killed while it was telling
                if not ("-T:7" in a if x.startswith("z3") else ("--time_limit" in a and a[a.index("--time_limit") + 1] == "7")):
                    o.violate(key + "limit", "a solver is started without the time limit the user gave (%s): %s" % (" ".join(a), it), **rep)
    if o.sample is None:
        o.sample = dict(case=o.name, scenario=str(items[0]), replayed=len(items))


VA = ["unsat", "new", "again", "none", "sig", "err"]
ZA = ["unsat", "sat", "timeout", "unknown", "sig", "err", "empty"]


def plan(seed, n_long, fmts):
    """All the scenarios of one round; a seeded sample of longer ones."""
    r = random.Random(seed)
    out = []
    both = ("vampire", "z3")

    def add(np, mx, solvers, va, za, limit=None, opt=True, **k2):
        sc, t = scripts(np, mx, solvers, va, za)
        ks = sorted(sc)
        if limit is not None and len(ks) > limit:
            ks = r.sample(ks, limit)
        out.extend(Item(k, np, mx, solvers, fmts[i % len(fmts)], opt, **k2) for i, k in enumerate(ks))
    add(1, 1, both, VA, ZA)
    add(1, 1, (), VA, ZA)
    add(1, 2, ("z3",), VA, ZA)
    add(1, 2, ("vampire",), VA, ZA)
    add(2, 1, both, VA, ZA, n_long)
    add(1, 2, both, VA, ZA, n_long)
    add(2, 2, both, ["unsat", "new", "again"], ["sat", "unsat", "timeout"], n_long)
    add(3, 1, both, ["unsat", "sig"], ["unsat", "unknown", "sat"], n_long)
    add(1, 5, ("vampire",), ["unsat", "new"], ZA, None, False)        # the default number of tries
    add(1, 5, ("z3",), VA, ["unsat", "timeout"], None, False)
    add(1, 0, ("vampire",), ["unsat", "new"], ZA, 8)                  # unbounded
    add(1, 1, both, ["unsat", "none"], ["unsat", "timeout", "sat"], None, True, mode="query", extra=2)
    add(1, 1, both, ["unsat", "none"], ["unsat", "timeout", "sat"], None, True, mode="ignore", extra=1)
    add(2, 5, both, ["unsat", "none"], ["unsat", "timeout", "sat"], 20, False, mode="default")
    add(1, 5, (), VA, ZA, 20, False, mode="default")
    add(2, 5, ("z3",), VA, ["unsat", "err"], 20, False, mode="default")
    add(2, 5, ("vampire",), ["unsat", "new"], ZA, 10, False, mode="default")
    return out


def run_spec(o):
    """The specification itself, exhaustively."""
    c = ("SPECIFICATION Spec\nCONSTANTS MaxNp = 3\n MaxMax = 3\nCHECK_DEADLOCK FALSE\nPROPERTY Terminates\n" +
         "".join("INVARIANT %s\n" % i for i in ("Honest", "Staged", "NoOrphan", "Bounded", "OneLinePerProblem", "Decided")))
    r = tlc.run("PortfolioMC", None, c)
    if r.violated:
        raise tlc.TlcError("the specification violates %s" % r.violated)
    o.states += r.distinct
    o.transitions += r.states


def capture(text, default="unsat", solvers=("z3",), opts=("--lemmas",), glob=(), timeout=100, outs=(), again=2):
    """Runs auto mode on `text' with solvers that always answer `default'; the files they were given, in order.
    outs: what vampire prints in its first rounds."""
    d = tempfile.mkdtemp(prefix="play_")
    try:
        run = os.path.join(d, "run")
        os.mkdir(run)
        src = os.path.join(d, "p.ptcl")
        open(src, "w").write(text)
        for i, x in enumerate(outs):
            open(os.path.join(run, "out.vampire..%d" % (i + 1)), "w").write(x)
        args = [src] + list(glob) + ["auto"] + list(opts)
        for s in ("vampire", "z3"):
            b = os.path.join(d, s)
            os.symlink(FAKE, b)
            args += ["--%s-location" % s, b] if s in solvers else ["--disable-" + s]
        args += ["--disable-cvc5"]
        r = tool.run(args, timeout=timeout, cwd=d, extra_env=dict(CV_FAKE=run, TMPDIR=d, CV_FAKE_DEFAULT=default))
        lg = os.path.join(run, "log")
        order = ["%s.%s" % tuple(l.split()[1:3]) for l in open(lg) if l.startswith("start")] if os.path.exists(lg) else []
        fs = [(x, open(os.path.join(run, x, "in"), errors="replace").read()) for x in order]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if again and (r.rc is None or not fs or not any(n.startswith(solvers[-1]) for n, _ in fs)):
        # the machine may have refused to start a process: what the tool itself does comes back
        return capture(text, default, solvers, opts, glob, timeout, outs, 0 if r.rc is None else again - 1)
    return r, fs
