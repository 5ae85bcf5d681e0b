"""Independent reader of the protocol language (.ptcl).

This is the source side of the conformance binding: it turns a protocol file
into a small AST from which `tlagen` produces the TLA+ description of the
protocol (spec side).  It deliberately shares nothing with the tool under test.

Pragmas (comments of the form  /*@ ... */ ) tell the specification how the
user-declared function symbols behave in the term model:

  /*@ proj f g i */      f(g(x1..xn)) = x_i
  /*@ verify v h */      v(s,m,k) <=> s = h(m,k)
  /*@ checksign v s p */ v(x,m,y) <=> \\E k: y = p(k) /\\ x = s(m,k)
  /*@ dec d e f */       d(e(m,r,k),k) = m ; otherwise d(..) = f
  /*@ eqpred p */        p(a,b) <=> a = b
  /*@ truepred p */      p(..) <=> TRUE    (falsepred likewise)
  /*@ public f */        (default for every non-name symbol)
  /*@ attack T */        attacker template, X/Y/Z range over known atoms, K over known names
  /*@ size S n */        cardinality of index sort S
  /*@ maxlen n */        length bound of executions (number of steps after init)
  /*@ opt key value */   other settings
"""
import re

TOK = re.compile(r"""
   (?P<ws>\s+)
 | (?P<pragma>/\*@.*?\*/)
 | (?P<com>/\*.*?\*/|\(\*.*?\*\))
 | (?P<op><=>|===|==|=>|!=|<>|\|\||&&|<-)
 | (?P<id>[^\W\d_](?:\w|['\-])*!?)
 | (?P<under>_)
 | (?P<sym>[(){}\[\],:;=<>∀∃])
""", re.X | re.S)


class PtclError(Exception):
    pass


def tokenize(s):
    pos, out, prag = 0, [], []
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise PtclError("lex error at %r" % s[pos:pos + 30])
        pos = m.end()
        k = m.lastgroup
        if k == "pragma":
            prag.append(m.group()[3:-2].split())
        elif k in ("ws", "com"):
            pass
        else:
            t = m.group()
            # `a!=b` must not swallow the `!`
            if k == "id" and t.endswith("!") and pos < len(s) and s[pos] == "=":
                t = t[:-1]
                pos -= 1
            out.append(t)
    return out, prag

# AST of terms:
#  ("var", name) | ("app", f, [args]) | ("macro", name, [args]) | ("infix", op, [args])
#  ("let", (x, sort), t1, t2) | ("if", c, a, b) | ("find", [(x,sort)], c, a, b)
#  ("forall"|"exists", [(x,sort)], t)
# a bare identifier is ("app", f, []) and resolved later.


class Proto:
    def __init__(self):
        self.types, self.funs, self.cells, self.steps = [], {}, {}, {}
        self.asserts, self.lemmas, self.orders, self.cryptos = [], [], [], []
        self.query, self.macros, self.pragmas = None, {}, []


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        if x is None:
            raise PtclError("unexpected end")
        self.i += 1
        return x

    def expect(self, x):
        y = self.next()
        if y != x:
            raise PtclError("expected %r got %r near %r" % (x, y, self.t[max(0, self.i - 8):self.i + 4]))

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def bindings(self):
        out = []
        if self.accept("("):
            while self.peek() != ")":
                if self.peek() == "_":
                    self.next()
                x = self.next()
                self.expect(":")
                out.append((x, self.next()))
                if not self.accept(","):
                    break
            self.expect(")")
        return out

    def sorts(self):
        out = []
        if self.accept("("):
            while self.peek() != ")":
                out.append(self.next())
                if not self.accept(","):
                    break
            self.expect(")")
        return out

    def braced(self):
        self.expect("{")
        t = self.term()
        self.expect("}")
        return t

    def args(self):
        out = []
        for o, c in (("(", ")"), ("[", "]")):
            if self.peek() == o:
                self.next()
                while self.peek() != c:
                    out.append(self.term())
                    if not self.accept(","):
                        break
                self.expect(c)
                return out
        return out

    def term(self):
        x = self.peek()
        if x == "(":
            self.next()
            ts = [self.term()]
            op = None
            while self.peek() != ")":
                o = self.next()
                if op not in (None, o):
                    raise PtclError("mixed operators")
                op = o
                ts.append(self.term())
            self.expect(")")
            if op is None:
                raise PtclError("infix needs an operator")
            return ("infix", op, ts)
        if x == "let":
            self.next()
            v = self.next()
            self.expect(":")
            s = self.next()
            self.expect("=")
            t1 = self.term()
            self.expect("in")
            return ("let", (v, s), t1, self.term())
        if x == "if":
            self.next()
            c = self.term()
            a = self.braced()
            self.expect("else")
            return ("if", c, a, self.braced())
        if x == "try":
            self.next()
            self.expect("find")
            vs = self.bindings()
            self.expect("such")
            self.expect("that")
            c = self.braced()
            self.expect("then")
            a = self.braced()
            self.expect("else")
            return ("find", vs, c, a, self.braced())
        if x in ("forall", "exists", "∀", "∃"):
            self.next()
            k = {"∀": "forall", "∃": "exists"}.get(x, x)
            vs = self.bindings()
            return (k, vs, self.braced())
        x = self.next()
        if x.endswith("!"):
            return ("macro", x[:-1], self.args())
        return ("app", x, self.args())

    def options(self):
        out = []
        if self.accept("["):
            while self.peek() != "]":
                out.append(self.next())
            self.expect("]")
        return out

    def file(self):
        p = Proto()
        while self.peek() is not None:
            k = self.next()
            if k == ";":
                continue
            if k == "type":
                p.types.append(self.next())
            elif k == "fun":
                f = self.next()
                a = self.sorts()
                self.expect(":")
                p.funs[f] = (a, self.next())
            elif k == "cell":
                f = self.next()
                a = self.sorts()
                self.expect(":")
                p.cells[f] = (a, self.next())
            elif k == "step":
                n = self.next()
                vs = self.bindings()
                c = self.braced()
                m = self.braced()
                asg = []
                if self.accept("{"):
                    while self.peek() != "}":
                        fv = self.bindings()
                        cell = self.term()
                        self.expect("<-")
                        asg.append((fv, cell[1], cell[2], self.term()))
                        if not self.accept(","):
                            break
                    self.expect("}")
                p.steps[n] = dict(args=vs, cond=c, msg=m, asg=asg)
            elif k in ("assert", "lemma", "query"):
                t = self.term()
                if k == "assert" and t == ("app", "assert-crypto", []):
                    raise PtclError("bad")
                if k == "query":
                    p.query = t
                else:
                    (p.asserts if k == "assert" else p.lemmas).append(t)
            elif k == "assert-crypto":
                name = self.next()
                fs = []
                while self.peek() is not None and self.peek() not in (";", "[") and self.peek() not in KEYWORDS:
                    fs.append(self.next())
                p.cryptos.append((name, fs, self.options()))
                continue
            elif k == "order":
                q = self.next()
                vs = self.bindings()
                br = self.accept("{")
                a = self.term()
                g = None
                if self.accept("=>"):
                    g = a
                    a = self.term()
                op = self.next()
                b = self.term()
                if br:
                    self.expect("}")
                p.orders.append((q, vs, g, a, op, b))
            elif k == "let":
                n = self.next()
                vs = self.bindings()
                self.expect("=")
                p.macros[n[:-1]] = (vs, self.term())
            else:
                raise PtclError("unexpected %r" % k)
            self.options()
        if "init" not in p.steps:
            p.steps["init"] = dict(args=[], cond=("app", "true", []), msg=("app", "empty", []), asg=[])
        return p


KEYWORDS = {"type", "fun", "cell", "step", "assert", "lemma", "query", "assert-crypto", "order", "let"}


def parse(text):
    toks, prag = tokenize(text)
    p = Parser(toks).file()
    p.pragmas = prag
    return p


# ---------------------------------------------------------------- expansion
class Expander:
    """Lexically scoped, capture-avoiding expansion of let/macros/msg!/cond!.

    Result language: var/app/infix/if/find/forall/exists, where every bound
    variable has a globally unique name."""

    def __init__(self, p):
        self.p, self.n = p, 0

    def fresh(self, x):
        self.n += 1
        return "v%d_%s" % (self.n, re.sub(r"\W", "q", x))

    def bind(self, vs, env):
        env = dict(env)
        out = []
        for x, s in vs:
            y = self.fresh(x)
            env[x] = ("var", y, s)
            out.append((y, s))
        return out, env

    def ex(self, t, env):
        k = t[0]
        if k == "app":
            f, a = t[1], t[2]
            if not a and f in env:
                return env[f]
            return ("app", f, [self.ex(x, env) for x in a])
        if k == "var":
            return t
        if k == "infix":
            return ("infix", t[1], [self.ex(x, env) for x in t[2]])
        if k == "if":
            return ("if",) + tuple(self.ex(x, env) for x in t[1:])
        if k == "let":
            (x, s), t1, t2 = t[1], t[2], t[3]
            e2 = dict(env)
            e2[x] = self.ex(t1, env)
            return self.ex(t2, e2)
        if k in ("forall", "exists"):
            vs, e2 = self.bind(t[1], env)
            return (k, vs, self.ex(t[2], e2))
        if k == "find":
            vs, e2 = self.bind(t[1], env)
            return ("find", vs, self.ex(t[2], e2), self.ex(t[3], e2), self.ex(t[4], env))
        if k == "macro":
            n, args = t[1], [self.ex(x, env) for x in t[2]]
            if n in ("msg", "cond"):
                st = args[0]
                if st[0] != "app" or st[1] not in self.p.steps:
                    raise PtclError("msg!/cond! needs a plain step")
                d = self.p.steps[st[1]]
                e2 = {x: a for (x, _), a in zip(d["args"], st[2])}
                e2["in"] = ("app", "input", [st])
                return self.ex(d["msg" if n == "msg" else "cond"], e2)
            vs, body = self.p.macros[n]
            return self.ex(body, {x: a for (x, _), a in zip(vs, args)})
        raise PtclError("? %r" % (t,))

    def step(self, name):
        """expanded (vars, cond, msg, assignments) of a step."""
        d = self.p.steps[name]
        vs, env = self.bind(d["args"], {})
        st = ("app", name, [("var", x, s) for x, s in vs])
        env["in"] = ("app", "input", [st])
        asg = []
        for fv, c, a, t in d["asg"]:
            fvs, e2 = self.bind(fv, env)
            asg.append((fvs, c, [self.ex(x, e2) for x in a], self.ex(t, e2)))
        return vs, self.ex(d["cond"], env), self.ex(d["msg"], env), asg


if __name__ == "__main__":
    import sys
    for f in sys.argv[1:]:
        p = parse(open(f).read())
        e = Expander(p)
        for s in p.steps:
            e.step(s)
        e.ex(p.query, {})
        print(f, "ok", len(p.steps), len(p.asserts), p.pragmas)
