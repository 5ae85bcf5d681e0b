"""The properties, as sets of cases."""
import os

import common
import genauth
import gencells
import genproto
import runner
import smtfiles
import squirrel
import wellformed
import world
from common import run_world
from world import ORDERING, EVALUATE, CELLS, NONCE, CMA, CTXT, UNFOLD, USER

TABLE = {}


def prop(pid):
    def d(f):
        TABLE[pid] = f
        return f
    return d


def corpus(*names):
    return [(n, open(os.path.join(common.CORPUS, n + ".ptcl")).read()) for n in names]


def renamed(n, t, s):
    """A quarter of the protocols use names that resemble those of the output."""
    return (n + "-renamed", smtfiles.trapped(t, n)) if s % 4 == 3 else (n, t)


def gens(c, profile, quick, thorough):
    n = quick if c.tier == "quick" else thorough
    s0 = c.seed * 1000
    return [renamed("%s-%d" % (profile, s), genproto.generate(s, profile), s) for s in range(s0, s0 + n)]


def auths(c, schemes, quick, thorough):
    n = quick if c.tier == "quick" else thorough
    return [renamed("%s-%d" % (k, s), genauth.generate(s, k), s) for s in range(c.seed * 1000, c.seed * 1000 + n) for k in schemes]


def chains(c, quick, thorough):
    n = quick if c.tier == "quick" else thorough
    return [renamed("chain-%d" % s, gencells.generate(s), s) for s in range(c.seed * 1000, c.seed * 1000 + n)]


def worlds(c, items, **k):
    k.setdefault("budget", (300, 20000, 10) if c.tier == "quick" else (2000, 1000000, 120))
    for n, t in items:
        c.add(n, run_world, t, **k)


ORDERS = [
    ("plain", "type index\n/*@ size index 1 */\nfun ok(): Message\nstep A(){true}{ok}\nstep B(){true}{ok}\nquery true\n"),
    ("family", "type index\nfun ok(): Message\nstep A(){true}{ok}\nstep B(i: index){true}{ok}\nquery true\n"),
    ("before", "type index\nfun ok(): Message\nstep A(){true}{ok}\nstep B(i: index){true}{ok}\norder forall (i: index) {A < B(i)}\nquery true\n"),
    ("after", "type index\nfun ok(): Message\nstep A(i: index){true}{ok}\nstep B(i: index){true}{ok}\norder forall (i: index) {A(i) > B(i)}\nquery true\n"),
    ("excl", "type index\nfun ok(): Message\nstep A(i: index){true}{ok}\nstep B(i: index){true}{ok}\norder forall (i: index, j: index) {A(i) <> B(j)}\nquery true\n"),
    ("pair", "type index\nfun ok(): Message\nstep A(i: index, j: index){true}{ok}\nquery true\n"),
    ("two", "type index\nfun ok(): Message\nstep A(i: index, j: index){true}{ok}\norder forall (i: index, j: index) {(i != j) => A(i, j) < A(j, i)}\nquery true\n"),
]


@prop("P01")
def p01(c):
    for n, t in ORDERS:
        c.add("struct-" + n, common.run_order, t, n=3)
        if c.tier == "thorough":
            c.add("struct4-" + n, common.run_order, t, n=4, timeout=3000)
    worlds(c, corpus("bh") + gens(c, "order", 30, 300), faults=("aux", "order"), sections={ORDERING})


@prop("P02")
def p02(c):
    worlds(c, corpus("bh", "cells1") + gens(c, "unfold", 40, 400), faults=("msg", "cond", "exec", "aux"),
           sections={EVALUATE, UNFOLD})


@prop("P03")
def p03(c):
    worlds(c, corpus("cells1") + gens(c, "cells", 30, 400) + chains(c, 12, 200), faults=("mem",), sections={CELLS})


@prop("P04")
def p04(c):
    worlds(c, corpus("bh", "cells1") + gens(c, "nonce", 30, 400) + chains(c, 30, 400), faults=("guess",), sections={NONCE})


@prop("P05")
def p05(c):
    worlds(c, corpus("bh", "sign1") + gens(c, "mac", 20, 200) + auths(c, ("mac", "hmac", "sign"), 15, 200), faults=("forge",), sections={CMA})


@prop("P06")
def p06(c):
    worlds(c, corpus("enc1", "enc_reuse") + auths(c, ("enc",), 45, 500), faults=("forge",), sections={CTXT})


@prop("P07")
def p07(c):
    worlds(c, corpus("bh", "cells1", "sign1", "enc1") + gens(c, "formula", 60, 600), sections=set(), faithful=True)


@prop("P08")
def p08(c):
    c.add("design", common.run_design, "Staging", "SPECIFICATION Spec\nCONSTANT N = 6\nINVARIANT NothingFalseEstablished\nINVARIANT OnlyEarlierUsed\nINVARIANT QueryFollows\nCHECK_DEADLOCK FALSE\n")
    for n, t in gens(c, "lemma", 40, 400):
        c.add(n, common.run_staged, t)


def portfolio(c, aspect, fmts):
    c.add("spec", runner.run_spec)
    items = runner.plan("%s/%s" % (aspect, c.seed), 60 if c.tier == "quick" else 1500, fmts)
    k = 24
    for i in range(0, len(items), k):
        c.add("runs-%d" % (i // k), runner.run_batch, items[i:i + k], aspect)


@prop("P09")
def p09(c):
    portfolio(c, "verdict", ["stdout", "json", "quiet"])


@prop("P10")
def p10(c):
    portfolio(c, "process", ["stdout"])


@prop("P11")
def p11(c):
    it = []
    for p in ("formula", "unfold", "cells", "order", "lemma", "nonce", "mac"):
        it += gens(c, p, 6, 80)
    it += [("auth-" + n, t) for n, t in auths(c, ("mac", "hmac", "sign", "enc"), 6, 80)]
    for n, t in corpus("bh", "cells1", "sign1", "enc1") + it:
        c.add(n, smtfiles.run, t)
    for s in range(c.seed * 1000, c.seed * 1000 + (12 if c.tier == "quick" else 200)):
        c.add("dump-%d" % s, smtfiles.run, squirrel.generate(s, "exotic" if s % 2 else None).json(), auto=False, squirrel=True)
    for n, x in (("prime", "a'"), ("accent", "caf\u00e9")):
        c.add("name-" + n, smtfiles.run, "fun %s: Message\nquery (%s == empty)\n" % (x, x), auto=False)


# a step that sends again what another one sent, by the function msg
RESEND = """type index
fun an(index): Name
step A(i: index) { true } { an(i) }
step C(i: index) { true } { msg(A(i)) }
query true
assert-crypto nonce;
"""


@prop("P12")
def p12(c):
    n = 100 if c.tier == "quick" else 600
    for p in ("formula", "unfold", "cells", "order", "lemma", "nonce"):
        for k, t in gens(c, p, 5, 40):
            c.add(k, wellformed.run, t, k, n)
    for k, t in auths(c, ("mac", "hmac", "sign", "enc"), 3, 25):
        c.add(k, wellformed.run, t, k, n)
    c.add("resend", wellformed.run_fixed, "resend/msg(A(i)) in a step", RESEND)


@prop("P13")
def p13(c):
    for n, t in corpus("learn_mac", "learn_hmac", "learn_sign", "learn_enc"):
        for k, l in common.learnt(t):
            c.add(n + "-" + k, common.run_learnt, t, l)
    for n, t in auths(c, ("mac", "hmac", "sign", "enc"), 8, 150):
        c.add("learn-" + n, common.run_learn, t, n, faults=("forge",), sections={CMA, CTXT, NONCE}, budget=(150, 5000, 8) if c.tier == "quick" else (500, 100000, 60))


@prop("P14")
def p14(c):
    it = corpus("bh", "cells1", "sign1", "enc1") + gens(c, "mix", 10, 200) + gens(c, "unfold", 5, 60) + gens(c, "cells", 5, 60) + gens(c, "nonce", 5, 60) + gens(c, "lemma", 5, 60)
    it += [("auth-" + n, t) for n, t in auths(c, ("mac", "hmac", "sign", "enc"), 3, 60)]
    for n, t in it:
        c.add(n, common.run_modes, t, budget=(200, 5000, 6) if c.tier == "quick" else (1000, 100000, 60))


@prop("P15")
def p15(c):
    q = c.tier == "quick"
    for s in range(c.seed * 1000, c.seed * 1000 + (48 if q else 600)):
        c.add("squirrel-%d" % s, common.run_squirrel, s, faults=("msg", "cond", "exec", "mem", "guess", "order"), faithful=True, budget=(200, 5000, 6) if q else (1000, 100000, 60))
    for s in range(c.seed * 1000, c.seed * 1000 + (20 if q else 300)):
        c.add("squirrel-shapes-%d" % s, common.run_squirrel, s, "shapes", faults=("order",), sections={ORDERING}, budget=(1000, 8000, 12) if q else (5000, 200000, 120))
    for k in ("hmac", "sign", "enc"):
        for s in range(c.seed * 1000, c.seed * 1000 + (8 if q else 100)):
            c.add("squirrel-%s-%d" % (k, s), common.run_squirrel, s, k, faults=("msg", "cond", "exec", "mem", "guess", "forge"), faithful=True, budget=(200, 5000, 6) if q else (1000, 100000, 60))
    for k in (0, 1):
        c.add("squirrel-tags-%d" % k, common.run_squirrel, k, "tags", faithful=True)
