"""What Vampire may print: seeded clauses about the primitives of a protocol, in its output syntax."""
import random

import smt


class Clauses:
    def __init__(self, seed, f, heads):
        """f: the file given to the solver; heads: the symbols the tool looks for."""
        self.r = random.Random("learn/%s" % seed)
        self.f, self.heads = f, heads
        self.by = {}
        for g, (args, out) in sorted(f.funs.items()) + sorted(f.ctors.items()):
            if "subterm" in g or g.startswith(("eval", "ta$", "happens", "lt", "leq", "gt", "_")) or "dest_" in g:
                continue
            self.by.setdefault(out, []).append((g, args))
        self.sk = {}

    @staticmethod
    def q(s):
        return s if s[0].islower() and all(c.isalnum() or c == "_" for c in s) else "'%s'" % s

    def app(self, g, args):
        return self.q(g) if not args else "%s(%s)" % (self.q(g), ",".join(args))

    def term(self, s, d):
        r = self.r
        c = self.by.get(s, [])
        if d <= 0:
            c = [x for x in c if not x[1]] or ([] if s not in ("Name", "Message") else [x for x in c if all(y not in ("Message", "Condition", "Bool") for y in x[1])])
        if not c or r.random() < .2:
            return "X%d" % (r.randint(0, 1) + 2 * sorted(["Message", "Step", "Name", "Condition", "Bool"] + [x for x in self.f.sorts if x not in ("Message", "Step", "Name")]).index(s)
                            if s in ["Message", "Step", "Name", "Condition", "Bool"] + self.f.sorts else 99)
        if r.random() < .05:
            return "sK%d" % r.randint(0, 3)
        g, args = r.choice(c)
        return self.app(g, [self.term(a, d - 1) for a in args])

    def literal(self):
        r = self.r
        par = lambda x: "(%s)" % x if r.random() < .15 else x
        h = r.choice(self.heads)
        args, out = self.f.funs[h]
        t = self.app(h, [self.term(a, r.randint(1, 3)) for a in args])
        if out == "Message":
            k = r.random()
            o = self.term("Message", 2)
            if k < .4:
                return par("%s %s %s" % (t, r.choice(["=", "!="]), o))
            if k < .8:
                return par("%s %s %s" % (o, r.choice(["=", "!="]), t))
            return par("%s = %s" % (self.app(self.q("fst"), [t]), o))
        if r.random() < .15:
            return "%s = $true" % t
        return ("~" if r.random() < .5 else "") + t

    def noise(self):
        return self.r.choice(["happens(X4)", "(X1 = X1)", "~lt(X4,X5)", "($false = X4)", "'ta$iff'(X1,X0)"])

    def text(self, n):
        L = ["% Running in auto input_syntax mode. Trying SMTLIB2"]
        for i in range(n):
            lits = [self.literal() for _ in range(self.r.choice([1, 1, 2]))] + ([self.noise()] if self.r.random() < .3 else [])
            self.r.shuffle(lits)
            av = self.r.choice(["", "", " <- (~3, 8, 15)"])
            L.append("[SA] new: %d. %s%s [%s %d,%d]" % (100 + i, " | ".join(lits), av, self.r.choice(["resolution", "superposition", "backward demodulation"]), i, i + 1))
            if self.r.random() < .2:
                L.append("[SA] passive: %d. %s [input]" % (50 + i, lits[0]))
        L += ["% Time limit reached!", "% ------------------------------", "% Termination reason: Time limit"]
        return "\n".join(L) + "\n"
