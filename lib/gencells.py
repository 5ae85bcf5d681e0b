"""Seeded generator of protocols in which a secret wanders through cells before it is published: what each
cell and input may depend on is a graph (cells reading cells, steps reading inputs), with every shape of
it: chains, cycles, diamonds, cells read several times, branches, finds, indexed cells."""
import random


class C:
    def __init__(self, seed):
        self.r = random.Random("chain/%s" % seed)
        r = self.r
        self.idx = r.random() < .35
        self.cells = {"c" + x: self.idx and r.random() < .4 for x in "abcd"[:r.choice([2, 3, 3, 4])]}

    def p(self, x):
        return self.r.random() < x

    def cell(self, c, ctx, at):
        if self.cells[c]:
            if not ctx:
                return None
            return "%s(%s, %s)" % (c, self.r.choice(ctx), at)
        return "%s(%s)" % (c, at)

    def read(self, want, ctx, at):
        """an expression which reads the given cells, some of them repeatedly"""
        r = self.r
        l = []
        for c in want:
            if self.cells[c] and not ctx:
                t = "try find (x: index) such that { (in != ok) } then { %s } else { ok }" % self.cell(c, ["x"], at)
            else:
                t = self.cell(c, ctx, at)
            if self.p(.25):
                t = r.choice(["if (in == ok) { %s } else { ok }", "if (in == ok) { ko } else { %s }", "fst(tpl(%s, ok))",
                              "let u: Message = %s in u", "fst(rd!(%s))"]) % t
            l += [t] * r.choice([1, 1, 2])
        r.shuffle(l)
        while len(l) > 1:
            i = r.randrange(len(l) - 1)
            l[i:i + 2] = ["tpl(%s, %s)" % (l[i], l[i + 1])]
        return l[0] if l else r.choice(["ok", "in"])

    def build(self):
        r = self.r
        cs = sorted(self.cells)
        r.shuffle(cs)
        sidx = self.idx and self.cells[cs[0]] and self.p(.7)
        # the secret starts in cs[0]
        ini = []
        for c in cs:
            v = ("sec(w)" if sidx and self.cells[c] else "sec") if c == cs[0] else r.choice(["ok", "ko", "n"])
            ini.append("%s%s <- %s" % ("(w: index) " if self.cells[c] else "", c + ("(w)" if self.cells[c] else ""), v))
        if self.p(.3):                      # not at the beginning
            ini = [x for x in ini if "sec" not in x]
        r.shuffle(ini)
        steps = ["step init { true } { empty } { %s }" % ", ".join(ini)] if ini else []
        names = iter(r.sample("ABCDEFGH", 8))
        body = []
        for k in range(r.choice([1, 1, 2, 2, 3])):
            s = next(names)
            ctx = ["i"] if self.idx and self.p(.4) else []
            at = "%s%s" % (s, "(i)" if ctx else "")
            tg = r.sample(cs, r.choice([1, 1, 2]) if len(cs) > 2 else 1)
            a = []
            for c in tg:
                if self.cells[c] and not ctx:
                    continue
                want = r.sample(cs, r.choice([0, 1, 1, 2, min(3, len(cs))]))
                if k == 0 and cs[0] not in want and c != cs[0]:
                    want.append(cs[0])
                a.append("%s <- %s" % (c + ("(i)" if self.cells[c] else ""), self.read(want, ctx, "pred(%s)" % at)))
            out = r.choice(["ok", "in", "tpl(in, ok)"])
            body.append("step %s%s { %s } { %s }%s" % (s, "(i: index)" if ctx else "", r.choice(["true", "true", "(in == ok)", "(in != ok)"]), out,
                                                     " { %s }" % ", ".join(a) if a else ""))
        s = next(names)
        ctx = ["i"] if self.idx and self.p(.3) else []
        at = "%s%s" % (s, "(i)" if ctx else "")
        pub = r.sample(cs, r.choice([1, 1, 2]))
        body.append("step %s%s { true } { %s }" % (s, "(i: index)" if ctx else "", self.read(pub, ctx, "pred(%s)" % at if self.p(.7) else at)))
        s = next(names)
        secs = "sec" if not sidx else "sec(i)"
        par = "(i: index)" if sidx else ""
        g = r.choice(["(in == %s)", "(%s == in)", "(fst(in) == %s)"]) % secs
        body.append("step %s%s { %s } { ok }" % (s, par, g))
        r.shuffle(body)
        at = "%s%s" % (s, "(i)" if sidx else "")
        q = "(happens(%s) => not(cond(%s)))" % (at, at)
        if sidx:
            q = "forall (i: index) { %s }" % q
        L = ["/*@ proj fst tpl 1 */ /*@ proj snd tpl 2 */", "/*@ maxlen %d */" % (5 if not self.idx else 4), "/*@ size index 2 */" if self.idx else ""]
        L += ["type index", "fun tpl(Message, Message): Message", "fun fst(Message): Message", "fun snd(Message): Message",
              "fun ok: Message", "fun ko: Message", "fun n: Name", "fun sec%s: Name" % ("(index)" if sidx else ""), "let rd!(x: Message) = tpl(x, ok)"]
        L += ["cell %s%s: Message" % (c, "(index)" if self.cells[c] else "") for c in sorted(self.cells)]
        L += steps + body
        L += ["assert forall (m1: Message, m2: Message) { ((m1 == fst(tpl(m1, m2))) && (m2 == snd(tpl(m1, m2)))) }", "query " + q,
              "assert-crypto nonce;", "assert-crypto memory_cell;", "assert-crypto unfolding;"]
        return "\n".join(x for x in L if x) + "\n"


def generate(seed):
    return C(seed).build()


if __name__ == "__main__":
    import sys
    print(generate(int(sys.argv[1])))
