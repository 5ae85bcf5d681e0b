"""Seeded generator of protocols around one unforgeable primitive (mac, hmac, signature, authenticated
encryption): every way a tag can be produced (branches, finds, cells, macros, conditions, nested), checked
(directly, under connectives and quantifiers, in finds) and every way the key can leak."""
import random


class A:
    def __init__(self, seed, scheme):
        self.r = random.Random("auth-%s/%s" % (scheme, seed))
        self.scheme = scheme
        self.kargs = self.r.choice([0, 1])
        self.fresh = 0
        self.rands = []
        self.macros = []
        self.lifted = False
        self.badrand = scheme == "enc" and self.p(.3)
        self.cell = self.p(.35)
        self.cargs = self.r.choice([0, 1])

    def p(self, x):
        return self.r.random() < x

    def key(self, ctx, name="k"):
        return name if not self.kargs else "%s(%s)" % (name, self.r.choice(ctx))

    def payload(self, ctx, inp=True):
        c = ["ok", "m"] + ["n(%s)" % x for x in ctx] * 2 + ["tpl(n(%s), ok)" % x for x in ctx] + ["h(m)"]
        if inp and self.scheme != "enc":
            c += ["in"]
        if inp and self.scheme == "enc" and self.p(.3):
            c += ["in"]
        return self.r.choice(c)

    def mk(self, p, k, ctx):
        if self.scheme in ("mac", "hmac"):
            return "hash(%s, %s)" % (p, k)
        if self.scheme == "sign":
            return "sign(%s, %s)" % (p, k)
        # one name of its own for each encryption, or not
        if self.badrand and self.p(.6):
            self.lifted = True          # no claim that forging is excluded
            w = self.r.choice(["ok", "reuse", "reuse", "less", "leak"] + ["in"] * (ctx != ["x"]))
            if w in ("ok", "in"):
                return "enc(%s, %s, %s)" % (p, w, k)
            old = [f for f, n in self.rands if n == len(ctx)]
            if w == "reuse" and old:
                return "enc(%s, %s(%s), %s)" % (p, self.r.choice(old), ", ".join(ctx), k)
            if w == "less":
                f = "r%d" % len(self.rands)
                self.rands.append((f, 1))
                return "enc(%s, %s(%s), %s)" % (p, f, self.r.choice(ctx), k)
            if w == "leak" and ctx != ["x"]:
                f = "r%d" % len(self.rands)
                self.rands.append((f, len(ctx)))
                return "enc(%s, %s(%s), %s)" % (self.r.choice(["n(%s)" % ctx[0], "tpl(%s(%s), ok)" % (f, ", ".join(ctx))]), f, ", ".join(ctx), k) if self.p(.3) else \
                    "tpl(enc(%s, %s(%s), %s), %s(%s))" % (p, f, ", ".join(ctx), k, f, ", ".join(ctx))
        f = "r%d" % len(self.rands)
        self.rands.append((f, len(ctx)))
        return "enc(%s, %s, %s)" % (p, f if not ctx else "%s(%s)" % (f, ", ".join(ctx)), k)

    def check(self, x, p, k):
        if self.scheme == "mac":
            return "verify(%s, %s, %s)" % (x, p, k)
        if self.scheme == "hmac":
            return self.r.choice(["(%s == hash(%s, %s))" % (x, p, k), "(hash(%s, %s) == %s)" % (p, k, x)])
        if self.scheme == "sign":
            return "checksign(%s, %s, pk(%s))" % (x, p, k)
        return self.r.choice(["(dec(%s, %s) != fail)" % (x, k)] * 2 + ["not((dec(%s, %s) == fail))" % (x, k)])

    def plain(self, ctx):
        """a condition without the primitive"""
        return self.r.choice(["(in == ok)", "(in != ok)", "(fst(in) == ok)", "true", "false"] +
                             ["(in == n(%s))" % x for x in ctx] + ["(in != n(%s))" % x for x in ctx])

    def produce(self, ctx):
        r = self.r
        p = self.payload(ctx)
        t = lambda c=ctx, q=p: self.mk(q, self.key(c + [] or ctx), c)
        k = r.choice(["bare", "pair", "pair", "hashed", "then", "else", "fthen", "felse", "felse", "fcond", "let", "nest", "macro", "in2"])
        if k == "bare":
            return t()
        if k == "pair":
            return r.choice(["tpl(%s, %s)", "tpl(%s, tpl(ok, %s))"]) % (p, t())
        if k == "in2":
            return "tpl(%s, %s)" % (t(), p)
        if k == "hashed":
            return "tpl(ok, h(%s))" % t()
        if k == "then":
            return "if %s { tpl(%s, %s) } else { ok }" % (self.plain(ctx), p, t())
        if k == "else":
            return "if %s { ok } else { tpl(%s, %s) }" % (self.plain(ctx), p, t())
        if k == "fthen":
            c2 = ctx + ["x"]
            p2 = self.payload(c2)
            return "try find (x: index) such that { %s } then { tpl(%s, %s) } else { ok }" % (self.plain(["x"]), p2, self.mk(p2, self.key(c2), c2))
        if k == "felse":
            return "try find (x: index) such that { %s } then { ok } else { tpl(%s, %s) }" % (self.plain(["x"]), p, t())
        if k == "fcond":
            c2 = ctx + ["x"]
            return "try find (x: index) such that { (h(%s) == in) } then { ok } else { ko }" % self.mk(self.payload(c2, False), self.key(c2), c2)
        if k == "let":
            return "tpl(let t: Message = %s in tpl(%s, t), ok)" % (t(), p)
        if k == "nest":
            q = self.mk(p, self.key(ctx), ctx)
            return "tpl(ok, %s)" % self.mk(q if self.p(.5) else "tpl(ok, %s)" % q, self.key(ctx), ctx)
        if k == "macro":
            n = "mt%d" % len(self.macros)
            self.macros.append("let %s!(x: index, y: Message) = %s" % (n, self.mk("y", self.key(["x"]), ["x"]) if self.scheme != "enc" else self.mk("y", self.key(["x"]), ["x"])))
            return "tpl(%s, %s!(%s, %s))" % (p, n, r.choice(ctx), p)

    def verdict(self, ctx, here):
        r = self.r
        sh = r.choice(["direct", "pair", "pair", "mixed", "cell"])
        p = self.payload(ctx, False)
        k = self.key(ctx)
        if sh == "direct":
            v = self.check("in", p, k)
        elif sh == "pair":
            v = self.check("snd(in)", "fst(in)", k)
        elif sh == "mixed":
            v = self.check("snd(in)", "tpl(%s, fst(in))" % p, k) if self.p(.3) else self.check("snd(in)", p, k)
        else:
            v = self.check("in", self.cellread(ctx, here), k) if self.cell and self.scheme != "enc" else self.check("snd(in)", "fst(in)", k)
        w = r.choice(["id", "id", "id", "and", "or", "not", "ex", "all", "imp"])
        if w == "and":
            return "(%s && %s)" % (self.plain(ctx), v)
        if w == "or":
            return "(%s || %s)" % (v, self.plain(ctx))
        if w == "imp":
            return "(%s => %s)" % (self.plain(ctx), v)
        if w == "not":
            return "not(%s)" % v
        if w in ("ex", "all"):
            # no claim that such a check excludes forgeries (see DESIGN.md)
            self.lifted = True
            c2 = ["x"]
            v = self.check("snd(in)", "fst(in)", self.key(c2)) if self.p(.5) else self.check("in", self.payload(c2, False), self.key(c2))
            return "%s (x: index) { %s }" % ("exists" if w == "ex" else "forall", v)
        return v

    def cellread(self, ctx, here):
        return "pc(%s%s)" % ("%s, " % self.r.choice(ctx) if self.cargs else "", "pred(%s)" % here)

    def wrap(self, k, ctx):
        """something equal, or possibly equal, to k"""
        r = self.r
        c = ["fst(tpl(%s, ok))", "snd(tpl(ok, %s))", "if (in != ok) { %s } else { ok }", "let u: Message = %s in u",
             "try find (x: index) such that { (in == n(x)) } then { ok } else { %s }", "try find (x: index) such that { (in != n(x)) } then { %s } else { ok }"]
        if self.scheme == "enc":
            f = "r%d" % len(self.rands)
            self.rands.append((f, len(ctx)))
            e = "enc(%%s, %s(%s), k2)" % (f, ", ".join(ctx))
            c += ["dec(%s, k2)" % e] * 4 + ["fst(dec(%s, k2))" % (e % "tpl(%s, ok)")] * 2
        else:
            n = "mw%d" % len(self.macros)
            self.macros.append("let %s!(x: Message) = tpl(x, ok)" % n)
            c += ["fst(%s!(%%s))" % n] * 2
        return r.choice(c) % k

    def deep(self, names, nv):
        """a check, in the query, of terms which mention outputs and inputs of the protocol under binders"""
        r = self.r

        def at(ctx, p=None):
            n = p or r.choice(sorted(names))
            return "%s(%s)" % (n, ", ".join(r.choice(ctx) for _ in range(names[n])))

        def small(ctx):
            return r.choice(["msg(%s)" % at(ctx)] * 4 + ["input(%s)" % at(ctx), "n(%s)" % r.choice(ctx), "ok"])

        def big(ctx, b):
            w = r.choice(["find", "find", "find", "if", "fst", "snd", "tpl", "small"])
            if w == "find":
                c2 = ctx + [b]
                return "try find (%s: index) such that { (%s == input(%s)) } then { %s } else { %s }" % (
                    b, r.choice(["n(%s)" % b, "msg(%s)" % at(c2)]), at(ctx), r.choice(["%s", "snd(%s)", "tpl(%s, ok)"]) % small([b] + c2), r.choice(["ok", small(ctx)]))
            if w == "if":
                return "if (%s == input(%s)) { %s } else { %s }" % (small(ctx), at(ctx), small(ctx), small(ctx))
            if w == "tpl":
                return "tpl(%s, %s)" % (small(ctx), small(ctx))
            return w + "(%s)" % small(ctx) if w != "small" else small(ctx)

        ctx = r.choice([["i"], ["i", "j"]])
        k = "k" if not self.kargs else "k(%s)" % r.choice(ctx)
        t, m = big(ctx, r.choice(["j", "x"]) if ctx == ["i"] else "x"), r.choice(["n(%s)" % r.choice(ctx), "tpl(input(%s), n(%s))" % (at(ctx), ctx[0]), small(ctx), small(ctx)])
        return "forall (%s) { (%s => %s) }" % (", ".join("%s: index" % x for x in ctx), self.check(t, m, k), r.choice(["false", "happens(%s)" % at(ctx)]))

    def build(self):
        r = self.r
        L, steps, insts = [], [], 0
        shape = r.choice([["P", "V"], ["P", "V"], ["P", "P", "V"], ["P", "V", "L"], ["L", "V"], ["P", "W"], ["P", "V", "V"]])
        names = {}
        letters = iter("ABCDE")
        leak = None
        asg_left = self.cell
        for kind in shape:
            n = next(letters)
            one = not (kind == "P" and self.p(.15)) and insts + 2 <= 6
            # every step has a parameter, so that every context has an index
            ctx = ["i", "j"] if kind == "P" and self.p(.25) else ["i"]
            here = "%s(%s)" % (n, ", ".join(ctx))
            insts += 2
            asg = ""
            if kind == "P":
                cond = r.choice(["true", "true", self.plain(ctx), "(h(%s) == in)" % self.mk(self.payload(ctx, False), self.key(ctx), ctx)])
                out = self.produce(ctx)
                if self.cell:
                    if self.p(.4):
                        out = "tpl(ok, %s)" % self.cellread(ctx, here)
                    if asg_left or self.p(.3):
                        asg_left = False
                        c = self.mk(self.payload(ctx), self.key(ctx), ctx) if self.p(.6) else self.payload(ctx)
                        asg = " { pc%s <- %s }" % ("(i)" if self.cargs else "", c)
            elif kind == "V":
                cond, out = self.verdict(ctx, here), r.choice(["ok", "n(i)", "fst(in)"] + (["dec(in, %s)" % self.key(ctx)] if self.scheme == "enc" else []))
            elif kind == "W":       # the check is in the output
                v = self.check("snd(in)", "fst(in)", self.key(ctx))
                w = self.check("snd(in)", "fst(in)", self.key(["x"]))
                cond = "true"
                out = r.choice(["if %s { n(i) } else { ok }" % v, "try find (x: index) such that { %s } then { n(x) } else { ok }" % w])
            else:
                k = self.key(ctx)
                if self.p(.6):
                    for _ in range(r.choice([1, 1, 2])):
                        k = self.wrap(k, ctx)
                    cond, out = r.choice([("true", k), ("true", "tpl(%s, ok)" % k), (self.plain(ctx), k)])
                else:
                    cond, out = r.choice([("true", k), ("true", "tpl(ok, %s)" % k), ("true", "h(%s)" % k), ("(h(%s) == in)" % k, "ok"),
                                          ("true", "if (in == ok) { %s } else { ko }" % k), ("(in == ok)", k)])
            names[n] = len(ctx)
            steps.append("step %s(%s) { %s } { %s }%s" % (n, ", ".join("%s: index" % x for x in ctx), cond, out, asg))
        if self.scheme == "sign":
            steps.append("step Z { true } { %s }" % ("pk(k)" if not self.kargs else "ok"))
        if self.cell and self.p(.5):
            steps.append("step init { true } { empty } { %spc%s <- %s }" % (("(w: index) ", "(w)", "n(w)") if self.cargs else ("", "", "m")))
        nv = "ABCDE"[shape.index("V") if "V" in shape else shape.index("W")]
        np = "A"
        pa = "%s(j)" % np if names[np] == 1 else "%s(j, j)" % np
        q = r.choice(["forall (i: index) { (happens(%s(i)) => (cond!(%s(i)) => exists (j: index) { lt(%s, %s(i)) })) }" % (nv, nv, pa, nv),
                      "forall (i: index) { (exec(%s(i)) => exists (j: index) { (msg(%s) == input(%s(i))) }) }" % (nv, pa, nv)])
        z = r.random()
        if z < .2:
            q = "forall (i: index, j: index) { (%s => lt(%s, %s(i))) }" % (
                self.check("input(%s(i))" % nv, "n(j)", "k" if not self.kargs else "k(j)"), pa, nv)
        elif z < .5:
            q = self.deep(names, nv)
        prag = ["/*@ proj fst tpl 1 */ /*@ proj snd tpl 2 */", "/*@ maxlen 3 */"]
        decl = ["type index", "fun tpl(Message, Message): Message", "fun fst(Message): Message", "fun snd(Message): Message",
                "fun h(Message): Message", "fun ok: Message", "fun ko: Message", "fun n(index): Name", "fun m: Name",
                "fun k%s: Name" % ("(index)" if self.kargs else "")]
        for f, a in self.rands:
            decl.append("fun %s%s: Name" % (f, "(%s)" % ", ".join(["index"] * a) if a else ""))
        crypto = []
        tail = ["assert forall (m1: Message, m2: Message) { ((m1 == fst(tpl(m1, m2))) && (m2 == snd(tpl(m1, m2)))) }"]
        s = self.scheme
        if s in ("mac", "hmac"):
            decl += ["fun hash(Message, Message): Message", "fun verify(Message, Message, Message): Bool"]
            prag += ["/*@ verify verify hash */", "/*@ attack T */ /*@ attack tpl(P, T) */ /*@ attack tpl(X, hash(X, K)) */ /*@ attack hash(X, K) */",
                     "/*@ forge tpl(att, hash(att, S)) */ /*@ forge hash(Q, S) */"]
            tail.append("assert forall (s: Message, m: Message, k: Message) { (verify(s, m, k) <=> (s == hash(m, k))) }")
            crypto.append("assert-crypto uf-cma hash verify%s;" % (" [hmac]" if s == "hmac" else ""))
            if s == "hmac":
                prag.append("/*@ opt hmac 1 */")
        elif s == "sign":
            decl += ["fun sign(Message, Message): Message", "fun checksign(Message, Message, Message): Bool", "fun pk(Message): Message"]
            prag += ["/*@ checksign checksign sign pk */", "/*@ attack T */ /*@ attack tpl(P, T) */ /*@ attack tpl(X, sign(X, K)) */ /*@ attack sign(X, K) */",
                     "/*@ forge tpl(att, sign(att, S)) */ /*@ forge sign(Q, S) */"]
            crypto.append("assert-crypto euf-cma sign checksign pk;")
        else:
            decl += ["fun k2: Name", "fun enc(Message, Message, Message): Message", "fun dec(Message, Message): Message", "fun fail: Message"]
            prag += ["/*@ dec dec enc fail */", "/*@ attack T */ /*@ attack tpl(P, T) */ /*@ attack enc(X, att, K) */ /*@ attack tpl(att, enc(X, att, K)) */",
                     "/*@ forge tpl(att, enc(att, att, S)) */ /*@ forge enc(att, att, S) */"]
            tail.append("assert forall (m: Message, r: Message, k: Message) { (dec(enc(m, r, k), k) == m) }")
            crypto.append("assert-crypto int-ctxt enc dec fail;")
        if self.cell:
            decl.append("cell pc%s: Message" % ("(index)" if self.cargs else ""))
            crypto.append("assert-crypto memory_cell;")
        if self.p(.5):
            crypto.append("assert-crypto nonce;")
        crypto.append("assert-crypto unfolding;")
        if self.lifted:
            prag = [x.split("/*@ forge")[0].strip() for x in prag]
        return "\n".join(x for x in prag + decl + self.macros + steps + tail + ["query " + q] + crypto if x) + "\n"


def generate(seed, scheme):
    return A(seed, scheme).build()


if __name__ == "__main__":
    import sys
    print(generate(int(sys.argv[2]), sys.argv[1]))
