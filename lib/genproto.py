"""Seeded generator of small protocols (source texts with pragmas).

Every protocol it produces is within the language the tool accepts; each
profile stresses one part of the tool.  The same seed gives the same text."""
import random

PRELUDE = """fun tpl(Message, Message): Message
fun fst(Message): Message
fun snd(Message): Message
fun h(Message): Message
"""
TUPLE_ASSERT = "assert forall (m1: Message, m2: Message) { ((m1 == fst(tpl(m1, m2))) && (m2 == snd(tpl(m1, m2)))) }\n"


class G:
    def __init__(self, seed, profile):
        self.r = random.Random("%s/%s" % (profile, seed))
        self.profile = profile
        r = self.r
        self.sorts = ["index"] if r.random() < .5 else ["index", "session"]
        self.nvar = 0
        self.names = {}
        for i in range(r.randint(1, 3)):
            self.names["n%d" % i if False else "abcd"[i] + "n"] = [r.choice(self.sorts) for _ in range(r.choice([0, 1, 1, 2]))]
        self.consts = ["ok", "ko"][:r.randint(1, 2)]
        self.cells = {}
        self.steps = {}
        self.macros = {}
        self.preds = {"eqp": 2} if r.random() < .4 else {}
        self.mac = self.sig = self.enc = False
        self.keys = {}

    def p(self, x):
        return self.r.random() < x

    def var(self, base="x"):
        # names are reused on purpose (shadowing)
        return self.r.choice(["x", "y", "z", "u", "v"])

    # ------------------------------------------------------------- terms
    # ctx: dict name -> sort (source names visible, innermost last)
    def idx(self, sort, ctx):
        c = [v for v, s in ctx.items() if s == sort]
        return self.r.choice(c) if c else None

    def args(self, sorts, ctx):
        out = [self.idx(s, ctx) for s in sorts]
        return None if None in out else out

    @staticmethod
    def app(f, args):
        return f if not args else "%s(%s)" % (f, ", ".join(args))

    def name(self, ctx):
        fs = list(self.names)
        self.r.shuffle(fs)
        for f in fs:
            a = self.args(self.names[f], ctx)
            if a is not None:
                return self.app(f, a)
        return None

    def msg(self, d, ctx, here=None):
        r = self.r
        mv = [v for v, s in ctx.items() if s == "Message"]
        if d <= 0 or self.p(.2):
            c = []
            if mv:
                c += [r.choice(mv)] * 2
            n = self.name(ctx)
            if n:
                c += [n] * 2
            c.append(r.choice(self.consts))
            cl = self.cell(ctx, here)
            if cl:
                c += [cl] * 2
            return r.choice(c)
        k = r.choice(["tpl", "tpl", "h", "fst", "snd", "if", "find", "let", "macro", "mac", "sig", "enc"])
        m = lambda dd=1, c=ctx: self.msg(d - dd, c, here)
        if k == "tpl":
            return "tpl(%s, %s)" % (m(), m())
        if k == "h":
            return "h(%s)" % m()
        if k in ("fst", "snd"):
            return "%s(%s)" % (k, m())
        if k == "if":
            return "if %s { %s } else { %s }" % (self.cond(d - 1, ctx, here), m(), m())
        if k == "find":
            vs, c2 = self.binders(ctx, r.randint(1, 2))
            return "try find (%s) such that { %s } then { %s } else { %s }" % (
                vs, self.cond(d - 1, c2, here), m(1, c2), m())
        if k == "let":
            v = self.var()
            c2 = self.bind(ctx, v, "Message")
            # `in' is greedy: a let is only generated where it is delimited
            return "tpl(let %s: Message = %s in %s, %s)" % (v, m(), m(1, c2), m())
        if k == "macro":
            ms = [x for x, (a, o) in self.macros.items() if o == "Message"]
            if ms:
                t = self.mcall(r.choice(ms), d, ctx, here)
                if t:
                    return t
        if k == "mac" and self.mac:
            key = self.key("hk", ctx)
            if key:
                return "hash(%s, %s)" % (m(), key)
        if k == "sig" and self.sig:
            key = self.key("sk", ctx)
            if key:
                return "sign(%s, %s)" % (m(), key)
        return "h(%s)" % m()

    def key(self, f, ctx):
        a = self.args(self.keys[f], ctx)
        return None if a is None else self.app(f, a)

    def mcall(self, n, d, ctx, here):
        out = []
        for _, s in self.macros[n][0]:
            if s == "Message":
                out.append(self.msg(d - 1, ctx, here))
            else:
                x = self.idx(s, ctx)
                if x is None:
                    return None
                out.append(x)
        return "%s!(%s)" % (n, ", ".join(out))

    def cell(self, ctx, here):
        """access to a cell from step `here' (text of the step term)"""
        if not self.cells or here is None:
            return None
        c = self.r.choice(list(self.cells))
        a = self.args(self.cells[c], ctx)
        if a is None:
            return None
        return self.app(c, a + ["pred(%s)" % here if here != "init" else "init"])

    def bind(self, ctx, v, s):
        c2 = {k: x for k, x in ctx.items() if k != v}
        c2[v] = s
        return c2

    def binders(self, ctx, n, sorts=None):
        out, c2 = [], ctx
        used = set()
        for _ in range(n):
            v = self.var()
            if v in used:
                continue
            used.add(v)
            s = self.r.choice(sorts or self.sorts)
            out.append("%s: %s" % (v, s))
            c2 = self.bind(c2, v, s)
        return ", ".join(out), c2

    def cond(self, d, ctx, here=None):
        r = self.r
        m = lambda dd=1, c=ctx: self.msg(d - dd, c, here)
        if d <= 0:
            k = r.choice(["eq", "eq", "neq", "pred"])
        else:
            k = r.choice(["eq", "eq", "neq", "and", "or", "imp", "iff", "not", "exists", "forall", "true", "macro", "pred", "verify"])
        c = lambda cc=ctx: self.cond(d - 1, cc, here)
        if k == "eq":
            return "(" + " == ".join(m() for _ in range(3 if self.p(.1) else 2)) + ")"
        if k == "neq":
            return "(%s != %s)" % (m(), m())
        if k in ("and", "or"):
            n = r.choice([2, 2, 3])
            return "(" + {"and": " && ", "or": " || "}[k].join(c() for _ in range(n)) + ")"
        if k == "imp":
            return "(%s => %s)" % (c(), c())
        if k == "iff":
            return "(" + " <=> ".join(c() for _ in range(3 if self.p(.2) else 2)) + ")"
        if k == "not":
            return "not(%s)" % c()
        if k in ("exists", "forall"):
            vs, c2 = self.binders(ctx, r.randint(1, 2))
            return "%s (%s) { %s }" % (k, vs, c(c2))
        if k == "macro":
            ms = [x for x, (a, o) in self.macros.items() if o == "Bool"]
            if ms:
                t = self.mcall(r.choice(ms), d, ctx, here)
                if t:
                    return t
        if k == "verify":
            if self.mac and self.key("hk", ctx):
                return "verify(%s, %s, %s)" % (m(), m(), self.key("hk", ctx))
            if self.sig and self.key("sk", ctx):
                return "checksign(%s, %s, pk(%s))" % (m(), m(), self.key("sk", ctx))
        if k == "pred" and self.preds:
            return "eqp(%s, %s)" % (m(), m())
        if k == "true":
            return r.choice(["true", "true", "false"])
        return "(%s == %s)" % (m(), m())

    # -------------------------------------------------- logical formulas
    def step_t(self, ctx):
        """a term of sort Step"""
        r = self.r
        c = [v for v, s in ctx.items() if s == "Step"] * 2
        for s, a in self.steps.items():
            x = self.args(a, ctx)
            if x is not None:
                c.append(self.app(s, x))
        c.append("init")
        t = r.choice(c)
        return "pred(%s)" % t if self.p(.15) else t

    def plain_step(self, ctx):
        c = []
        for s, a in self.steps.items():
            x = self.args(a, ctx)
            if x is not None:
                c.append(self.app(s, x))
        return self.r.choice(c) if c else "init"

    def emsg(self, d, ctx):
        """message terms of formulas"""
        r = self.r
        k = r.choice(["input", "msg", "msg!", "plain", "plain", "cell"])
        if k == "input":
            return "input(%s)" % self.step_t(ctx)
        if k == "msg":
            return "msg(%s)" % self.step_t(ctx)
        if k == "msg!":
            return "msg!(%s)" % self.plain_step(ctx)
        if k == "cell" and self.cells:
            c = r.choice(list(self.cells))
            a = self.args(self.cells[c], ctx)
            if a is not None:
                return self.app(c, a + [self.step_t(ctx)])
        return self.msg(min(d, 2), ctx)

    def form(self, d, ctx, nq=2):
        r = self.r
        if d <= 0:
            k = r.choice(["happens", "lt", "leq", "gt", "eq", "neq", "cond", "cond!", "exec", "stepeq"])
        else:
            k = r.choice(["and", "or", "imp", "iff", "not", "all", "ex", "all", "ex", "lt", "eq", "ite", "let", "macro"])
        f = lambda c=ctx: self.form(d - 1, c, nq)
        s = lambda: self.step_t(ctx)
        if k in ("lt", "leq", "gt"):
            return "%s(%s, %s)" % (k, s(), s())
        if k == "happens":
            return "happens(%s)" % s()
        if k in ("cond", "exec"):
            return "%s(%s)" % (k, s())
        if k == "cond!":
            return "cond!(%s)" % self.plain_step(ctx)
        if k == "stepeq":
            return "(%s == %s)" % (s(), s())
        if k in ("eq", "neq"):
            if self.p(.2):
                for so in self.sorts:
                    c = [v for v, x in ctx.items() if x == so]
                    if len(c) >= 2:
                        a, b = r.sample(c, 2)
                        return "(%s %s %s)" % (a, "==" if k == "eq" else "!=", b)
            return "(" + (" == " if k == "eq" else " != ").join(self.emsg(1, ctx) for _ in range(3 if self.p(.15) else 2)) + ")"
        if k in ("and", "or"):
            n = r.choice([2, 2, 3])
            return "(" + {"and": " && ", "or": " || "}[k].join(f() for _ in range(n)) + ")"
        if k == "imp":
            return "(%s => %s)" % (f(), f())
        if k == "iff":
            return "(" + " <=> ".join(f() for _ in range(3 if self.p(.25) else 2)) + ")"
        if k == "not":
            return "not(%s)" % f()
        if k in ("all", "ex"):
            so = list(self.sorts) * 2 + ["Step"]
            if sum(1 for x in ctx.values() if x == "Message") < 1:
                so += ["Message"]
            n = sum(1 for x in ctx.values())
            vs, c2 = self.binders(ctx, r.randint(1, 2) if n < 4 else 1, so)
            # at most one Message variable per quantifier, four variables overall
            while vs.count("Message") > 1 or len(c2) > 5:
                vs, c2 = self.binders(ctx, 1, self.sorts)
                if len(c2) > 5:
                    return self.form(0, ctx)
            return "%s (%s) { %s }" % (r.choice(["forall", "∀"]) if k == "all" else r.choice(["exists", "∃"]), vs, f(c2))
        if k == "ite":
            return "if %s { %s } else { %s }" % (f(), f(), f())
        if k == "macro":
            ms = [x for x, (a, o) in self.macros.items() if o == "Bool"]
            if ms:
                t = self.mcall(r.choice(ms), 1, ctx, None)
                if t:
                    return t
        if k == "let":
            v = self.var()
            return "(let %s: Message = %s in %s && %s)" % (v, self.emsg(1, ctx), self.form(0, self.bind(ctx, v, "Message")), f())
        return f()

    # ------------------------------------------------------------ pieces
    def mkmacros(self):
        r = self.r
        L = []
        for i in range(r.choice([0, 1, 1, 2])):
            n = "mm%d" % i
            args = []
            used = set()
            for _ in range(r.randint(1, 3)):
                v = self.var()
                if v in used:
                    continue
                used.add(v)
                args.append((v, r.choice(self.sorts + ["Message", "Message"])))
            ctx = dict(args)
            o = r.choice(["Message", "Bool"])
            b = self.msg(2, ctx) if o == "Message" else self.cond(2, ctx)
            self.macros[n] = (args, o)
            L.append("let %s!(%s) = %s" % (n, ", ".join("%s: %s" % x for x in args), b))
        return L

    def mkorders(self):
        r = self.r
        L = []
        ss = list(self.steps)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            a, b = r.choice(ss), r.choice(ss)
            if a == b:
                continue
            vs, ctx = [], {}
            def mk(s):
                out = []
                for so in self.steps[s]:
                    c = [v for v, x in vs if x == so]
                    if c and self.p(.4):
                        out.append(r.choice(c))
                    else:
                        v = "o%d" % len(vs) if False else "pqrstu"[len(vs) % 6] + ("" if len(vs) < 6 else "x")
                        vs.append((v, so))
                        out.append(v)
                return self.app(s, out)
            ta, tb = mk(a), mk(b)
            op = r.choice(["<", ">", "<>"])
            g = ""
            if self.p(.4):
                pairs = [(x, y) for x, s1 in vs for y, s2 in vs if s1 == s2 and x < y]
                if pairs:
                    x, y = r.choice(pairs)
                    g = "(%s %s %s) => " % (x, r.choice(["==", "!="]), y)
            # an order clause needs a quantifier, possibly with no variable
            vb = ", ".join("%s: %s" % x for x in vs)
            body = "%s%s %s %s" % (g, ta, op, tb)
            L.append("order forall (%s) { %s }" % (vb, body) if self.p(.8) else "order forall (%s) %s" % (vb, body))
        return L

    def build(self):
        r = self.r
        pf = self.profile
        prag = ["/*@ proj fst tpl 1 */ /*@ proj snd tpl 2 */"]
        decl, lets, steps, tail, crypto = [], [], [], [], []
        if pf in ("mac", "mix") or (pf == "unfold" and self.p(.2)):
            self.mac = True
            self.keys["hk"] = [] if self.p(.5) else [self.sorts[0]]
            decl += ["fun hash(Message, Message): Message", "fun verify(Message, Message, Message): Bool",
                     "fun hk%s: Name" % ("(%s)" % ", ".join(self.keys["hk"]) if self.keys["hk"] else "")]
            prag.append("/*@ verify verify hash */")
        for f, a in self.names.items():
            decl.append("fun %s%s: Name" % (f, "(%s)" % ", ".join(a) if a else ""))
        for c in self.consts:
            decl.append("fun %s: Message" % c)
        if self.preds:
            decl.append("fun eqp(Message, Message): Bool")
            prag.append("/*@ eqpred eqp */")
        if pf in ("cells", "mix") or (pf in ("nonce", "formula") and self.p(.5)):
            for i in range(r.randint(1, 2)):
                self.cells["c%d" % i if False else "pq"[i] + "cell"] = [r.choice(self.sorts) for _ in range(r.choice([0, 1, 1, 2] if pf == "cells" else [0, 1]))]
            for c, a in self.cells.items():
                decl.append("cell %s%s: Message" % (c, "(%s)" % ", ".join(a) if a else ""))
        lets = self.mkmacros()
        # steps
        nst = r.choice([2, 2, 3])
        insts = 0
        order = []
        for i in range(nst):
            na = r.choice([0, 1, 1, 2])
            while 2 ** na + insts > 6:
                na -= 1
            insts += 2 ** na
            order.append(("ABCD"[i], [r.choice(self.sorts) for _ in range(na)]))
        for s, a in order:
            args, used = [], []
            for so in a:
                v = r.choice([x for x in (["i", "j", "k"] if self.cells else ["i", "j", "x", "y"]) if x not in used])
                used.append(v)
                args.append((v, so))
            ctx = dict(args)
            here = self.app(s, [v for v, _ in args])
            ctx["in"] = "Message"
            deep = 3 if pf == "unfold" else 2
            cd = self.cond(deep if pf in ("unfold", "formula") else r.choice([0, 1, 2]), ctx, here) if self.p(.75) else "true"
            mg = self.msg(deep, ctx, here)
            asg = []
            for c, ca in self.cells.items():
                if self.p(.6):
                    x = self.args(ca, ctx)
                    if ca and self.p(.3):
                        fv = [("f%d" % k, so) for k, so in enumerate(ca)]
                        fv = [("w" if k == 0 else "ww", so) for k, (v, so) in enumerate(fv)]
                        c2 = dict(ctx, **dict(fv))
                        asg.append("(%s) %s <- %s" % (", ".join("%s: %s" % z for z in fv), self.app(c, [v for v, _ in fv]), self.msg(2, c2, here)))
                    elif x is not None:
                        asg.append("%s <- %s" % (self.app(c, x), self.msg(2, ctx, here)))
            steps.append("step %s%s { %s } { %s }%s" % (
                s, "(%s)" % ", ".join("%s: %s" % x for x in args) if args else "", cd, mg,
                " { %s }" % ", ".join(asg) if asg else ""))
            self.steps[s] = a
        if self.cells and self.p(.7):
            asg = []
            for c, ca in self.cells.items():
                fv = [("w" if k == 0 else "ww", so) for k, so in enumerate(ca)]
                n = self.name(dict(fv)) or r.choice(self.consts)
                if self.p(.8):
                    asg.append(("(%s) " % ", ".join("%s: %s" % z for z in fv) if fv else "") + "%s <- %s" % (self.app(c, [v for v, _ in fv]), n))
            steps.append("step init { %s } { %s } { %s }" % (
                self.cond(1, {}, "init") if self.p(.3) else "true", self.msg(1, {}, "init") if self.p(.3) else "empty", ", ".join(asg)))
        elif self.p(.25):
            steps.append("step init { %s } { %s }" % (self.cond(1, {}, "init"), self.msg(1, {}, "init")))
        if pf == "order":
            tail += self.mkorders() + self.mkorders()
        elif self.p(.4):
            tail += self.mkorders()
        tail.append(TUPLE_ASSERT.strip())
        if self.mac:
            tail.append("assert forall (s: Message, m: Message, k: Message) { (verify(s, m, k) <=> (s == hash(m, k))) }")
        if self.preds:
            tail.append("assert forall (a: Message, b: Message) { (eqp(a, b) <=> (a == b)) }")
        if pf == "lemma":
            goals = ["lemma %s" % self.form(2, {}) for _ in range(r.randint(1, 3))]
            extra = ["assert %s" % self.form(2, {}) for _ in range(r.randint(0, 2))]
            goals.append("query %s" % self.form(2, {}))
            # their relative order in the file is free, but for that of the lemmas
            for x in extra + [tail.pop()] + ([goals.pop()] if self.p(.5) else []):
                goals.insert(r.randint(0, len(goals)), x)
            tail += goals
        d = 3 if pf in ("formula",) else 2
        nas = r.randint(0, 2) if pf == "formula" else 0
        # (only their faithfulness is checked, so they need not be true)
        for _ in range(nas):
            tail.append("assert %s" % self.form(d, {}))
        if pf == "formula":
            for _ in range(r.choice([0, 0, 1, 2])):
                tail.append("lemma %s" % self.form(2, {}))
        if pf != "lemma":
            tail.append("query %s" % self.form(d, {}))
        if self.mac and pf in ("mac", "mix"):
            crypto.append("assert-crypto uf-cma hash verify%s;" % r.choice(["", "", " [hmac]"]))
        if self.cells:
            crypto.append("assert-crypto memory_cell;")
        if pf in ("nonce", "mix", "mac") or self.p(.3):
            crypto.append("assert-crypto nonce;")
        crypto.append("assert-crypto unfolding%s;" % r.choice(["", "", " [recurisve]", " [direct]", " [recurisve direct]"]))
        prag.append("/*@ maxlen %d */" % (3 if insts <= 4 else 2))
        if self.mac:
            prag.append("/*@ attack tpl(X, hash(X, K)) */")
        return "\n".join(prag + ["type %s" % s for s in self.sorts] + [PRELUDE.strip()] + decl + lets + steps + tail + crypto) + "\n"


def generate(seed, profile):
    return G(seed, profile).build()


if __name__ == "__main__":
    import sys
    print(generate(int(sys.argv[2]), sys.argv[1]))
