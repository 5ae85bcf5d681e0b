"""One protocol, one emitted theory, one TLC run over all executions."""
import re

import smt
import tlagen

CFG = """SPECIFICATION Spec
CONSTANTS
  StepInsts <- P_StepInsts
  InitStep <- P_InitStep
  CellInsts <- P_CellInsts
  MaxLen <- P_MaxLen
  MsgOf <- P_MsgOf
  CondOf <- P_CondOf
  MemOf <- P_MemOf
  OrderOk <- P_OrderOk
  Inputs <- P_Inputs
  Guesses <- P_Guesses
  Forgeries <- P_Forgeries
  Overrides <- P_Overrides
  Faults <- P_Faults
  MinWorlds <- P_MinWorlds
  MaxWorlds <- P_MaxWorlds
  Seconds <- P_Seconds
CHECK_DEADLOCK FALSE
POSTCONDITION Report
INVARIANT Count
INVARIANT WellFormed
"""

# sections of the emitted file
ORDERING, EVALUATE, CELLS, NONCE, CMA, CTXT, UNFOLD, USER = (
    "ordering", "evaluate", "cells", "nonce", "cma", "ctxt", "unfolding", "user")
_SEC = [("ordering", ORDERING), ("evaluate", EVALUATE), ("memory cell", CELLS), ("cell", CELLS), ("nonce", NONCE),
        ("uf-cma", CMA), ("euf-cma", CMA), ("int ctxt", CTXT), ("int-ctxt", CTXT), ("unfold", UNFOLD),
        ("user assert", USER)]


def section(s):
    for k, v in _SEC:
        if k in s.lower():
            return v
    return "other"


def classify(axs, n_user):
    """[(axiom, section)].  The user's assertions are the last ones before the query; anything in
    a section the specification does not know is attributed to every property."""
    out = [[a, section(s)] for a, s in axs]
    if not any(s == USER for _, s in out):
        for x in out[len(out) - n_user:] if n_user else []:
            x[1] = USER
    return [tuple(x) for x in out]


def build(gen, f, faults=(), sections=None, exact=None, faithful=True, name="MC", budget=(500, 20000, 60)):
    """sections: the sections whose axioms must be true in every real execution (None: all).
    exact: {fault kind: sections that must exclude it (None: any)}.
    Returns (module text, cfg text, info)"""
    proto = gen.protocol()
    defs, axs = gen.emitted(f, ovr="aux" in faults)
    axs = classify(axs, len(gen.p.asserts))
    L = ["---- MODULE %s ----" % name, "EXTENDS Execution"]
    L += proto
    L += ['P_InitStep == <<"init">>', "P_MaxLen == %d" % gen.maxlen, "P_MinWorlds == %d" % budget[0], "P_MaxWorlds == %d" % budget[1], "P_Seconds == %d" % budget[2],
          "P_Faults == {%s}" % ", ".join('"%s"' % x for x in faults)]
    L += defs
    invs = []
    sel = [a for a, s in axs if sections is None or s in sections or s == "other"]
    for a in sel:
        L.append('Sound_%s == flt = "none" => %s' % (a, a))
        invs.append("Sound_" + a)
    for k in faults:
        secs = (exact or {}).get(k)
        xs = [a for a, s in axs if secs is None or s in secs or s == "other"]
        L.append('Exact_%s == flt = "%s" => ~(%s)' % (k, k, " /\\ ".join(xs) if xs else "TRUE"))
        invs.append("Exact_" + k)
    if faithful:
        L.append('Faithful_Query == flt # "aux" => (Emit_Query <=> Src_Query)')
        invs.append("Faithful_Query")
        ua = [a for a, s in axs if s == USER]
        n = len(gen.p.asserts)
        if len(ua) == n:
            for i in range(n):
                L.append('Faithful_Assert_%d == flt # "aux" => (%s <=> Src_Assert_%d)' % (i + 1, ua[i], i + 1))
                invs.append("Faithful_Assert_%d" % (i + 1))
        else:
            # one emitted assumption more or less than the user wrote
            L.append("Faithful_NumberOfAssertions == FALSE")
            invs.append("Faithful_NumberOfAssertions")
    L.append("====")
    cfg = CFG + "".join("INVARIANT %s\n" % i for i in invs)
    return "\n".join(L) + "\n", cfg, dict(axioms=dict(axs), selected=sel, invs=invs)


def rename(defs, axs, pre):
    """The definitions of an emitted file, under names of their own."""
    names = set()
    for d in defs:
        names |= set(re.findall(r"^(\w+)(?:\([^=]*\))? ==", d, re.M))
    if not names:
        return defs, axs
    rx = re.compile(r"(?<![\w\"$.])(%s)(?![\w\"$])" % "|".join(sorted(map(re.escape, names), key=len, reverse=True)))
    return [rx.sub(lambda m: pre + m.group(1), d) for d in defs], [(pre + a, s) for a, s in axs]


def build_staged(gen, files, name="MC", budget=(500, 20000, 60)):
    """files: [(what, smt.File, number of lemmas assumed, goal: lemma index (from 1) or 0 for the query)].
    The user's part of each problem means what the source says; all of them valid entails the query."""
    proto = gen.protocol()
    n = len(gen.p.asserts)
    L = ["---- MODULE %s ----" % name, "EXTENDS Execution"] + proto
    L += ['P_InitStep == <<"init">>', "P_MaxLen == %d" % gen.maxlen, "P_MinWorlds == %d" % budget[0], "P_MaxWorlds == %d" % budget[1], "P_Seconds == %d" % budget[2], "P_Faults == {}",
          "P_Overrides(W) == {}", "False(b) == IF b THEN 0 ELSE 1"]
    invs = []
    for j, (what, f, nl, goal) in enumerate(files):
        defs, axs = tlagen.Emitted(gen, f, False).run()
        axs = classify(axs, n + nl)
        defs, axs = rename(defs, axs, "F%d_" % j)
        user = [a for a, s in axs if s == USER]
        L += defs
        src = ["Src_Assert_%d" % (i + 1) for i in range(n)] + ["Src_Lemma_%d" % (i + 1) for i in range(nl)]
        L.append("Asm_%d == %s" % (j, " /\\ ".join(user) if user else "TRUE"))
        L.append("Assumes_%d == %s = %s" % (j, " + ".join("False(%s)" % a for a in user) or "0", " + ".join("False(%s)" % a for a in src) or "0"))
        L.append("Goal_%d == F%d_Emit_Query <=> %s" % (j, j, "Src_Lemma_%d" % goal if goal else "Src_Query"))
        invs += ["Assumes_%d" % j, "Goal_%d" % j]
    L.append("====")
    return "\n".join(L) + "\n", CFG + "".join("INVARIANT %s\n" % i for i in invs), dict(invs=invs)


def build_modes(gen, files, faults=(), weaker=(), partly=(), name="MC", budget=(500, 20000, 60)):
    """files: [(what, smt.File)] made of the same source: each states what the first one does
    (those in `weaker': nothing it does not; those in `partly' exclude with subterm
    predicates what the attacker cannot compute, which is not looked at).  The latter tell what terms
    evaluate to: a world in which one evaluates to something else (fault "aux") is excluded."""
    L = ["---- MODULE %s ----" % name, "EXTENDS Execution"] + gen.protocol()
    L += ['P_InitStep == <<"init">>', "P_MaxLen == %d" % gen.maxlen, "P_MinWorlds == %d" % budget[0], "P_MaxWorlds == %d" % budget[1], "P_Seconds == %d" % budget[2],
          "P_Faults == {%s}" % ", ".join('"%s"' % x for x in faults)]
    invs, evals = [], []
    for j, (what, f) in enumerate(files):
        e = tlagen.Emitted(gen, f, "eval" if j in partly else False)
        defs, axs = e.run(drop="$subterm_" if j in partly else None)
        defs, axs = rename(defs, axs, "F%d_" % j)
        L += defs
        L.append("Theory_%d == %s" % (j, " /\\ ".join(a for a, _ in axs)))
        if j:
            if j in partly:
                same = "IF flt = \"aux\" THEN (w.ov.h \\in {%s} => ~Theory_%d) ELSE (Theory_0 => Theory_%d) /\\ (flt \\notin {\"guess\", \"forge\"} => (Theory_%d => Theory_0))" % (
                    ", ".join(map(tlagen.q, sorted(e.ovr_syms))), j, j, j)
                evals.append("F%d_P_Overrides(W)" % j)
            else:
                same = "Theory_0 %s Theory_%d" % ("=>" if j in weaker else "<=>", j)
            L += ["Same_%d == %s" % (j, same), "Goal_%d == flt # \"aux\" => (F%d_Emit_Query <=> F0_Emit_Query)" % (j, j)]
            invs += ["Same_%d" % j, "Goal_%d" % j]
    L += ["P_Overrides(W) == " + " \\cup ".join(evals or ["{}"]), "===="]
    return "\n".join(L) + "\n", CFG + "".join("INVARIANT %s\n" % i for i in invs), dict(invs=invs)


def covered(out):
    m = re.search(r'<<"COVERED", (.*?)>>\s*$', out, re.S | re.M)
    return {k: int(v) for k, v in re.findall(r'<<\s*"(\w+)",\s*(\d+)\s*>>', out[out.find('"COVERED"'):])} if m or '"COVERED"' in out else {}


# ------------------------------------------------------------ order structures
ORD_STAGE = {"happens": 1, "leq": 2, "pred": 4, "lt": 5, "gt": 6}
ORD_CFG = """SPECIFICATION Spec
CONSTANTS
  N = %d
  StepInsts <- P_StepInsts
  Filter <- P_Filter
  OrderOk <- P_OrderOk
CHECK_DEADLOCK FALSE
POSTCONDITION Report
INVARIANT CountModels
INVARIANT Exact
"""


def order_stage(x, g, bound=()):
    """The stage from which formula x can be evaluated; None if it is not about the order of steps."""
    if isinstance(x, str):
        x = [x]
    h, a = x[0], x[1:]
    if h in ("forall", "exists"):
        for _, s in a[0]:
            if s != "Step" and s not in g.size:
                return None
        return order_stage(a[1], g, set(bound) | {v for v, _ in a[0]})
    if not a and h in bound:
        return 0
    if h in ORD_STAGE:
        r = ORD_STAGE[h]
    elif h == "init":
        r = 0
    elif h in g.steps:
        r = 3
    elif h in ("and", "or", "not", "=>", "=", "true", "false", "distinct"):
        r = 0
    else:
        return None
    for y in a:
        s = order_stage(y, g, bound)
        if s is None:
            return None
        r = max(r, s)
    return r


def build_order(gen, f, n, name="MC"):
    th = f.theory()
    em = tlagen.Emitted(gen, f, False)
    L = ["---- MODULE %s ----" % name, "EXTENDS OrderStruct"]
    proto = gen.protocol()
    L += [x for x in proto if x.startswith(("D_", "P_StepInsts", "P_OrderOk"))]
    by = {}
    for i, (k, s, x) in enumerate(th):
        st = order_stage(x, gen)
        if st is not None:
            L.append("Ax_%d == %s" % (i + 1, em.tr(x, {})))
            by.setdefault(st, []).append("Ax_%d" % (i + 1))
    L.append("P_Filter(k) ==\n  CASE " + "\n    [] ".join("k = %d -> %s" % (k, " /\\ ".join(by.get(k, ["TRUE"]))) for k in range(7)))
    L.append("====")
    return "\n".join(L) + "\n", ORD_CFG % n, dict(axioms=sum(len(v) for v in by.values()))
