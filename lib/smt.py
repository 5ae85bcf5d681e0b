"""Reader for the SMT-LIB-like files the tool writes."""
import re

TOK = re.compile(r'\s+|(?P<c>;[^\n]*)|(?P<s>"(?:[^"]|"")*")|(?P<q>\|[^|]*\|)|(?P<p>[()])|(?P<a>[^\s()";|]+)')


class SmtError(Exception):
    pass


def read(text):
    """list of toplevel items: s-expressions (nested lists) and ('comment', text)."""
    pos, stack, out = 0, [], []
    n = len(text)
    while pos < n:
        m = TOK.match(text, pos)
        if not m:
            raise SmtError("lexical error at %d: %r" % (pos, text[pos:pos + 20]))
        pos = m.end()
        k = m.lastgroup
        if k is None:
            continue
        t = m.group()
        if k == "c":
            if not stack:
                out.append(("comment", t[1:].strip()))
            continue
        if t == "(":
            stack.append([])
        elif t == ")":
            if not stack:
                raise SmtError("unbalanced )")
            x = stack.pop()
            (stack[-1] if stack else out).append(x)
        else:
            if not stack:
                raise SmtError("atom %r at top level" % t)
            stack[-1].append(t)
    if stack:
        raise SmtError("unbalanced (")
    return out


class File:
    """Structured view of an emitted file."""

    def __init__(self, text):
        self.items = read(text)
        self.sorts, self.alias, self.funs, self.ctors = [], {}, {}, {}
        self.order = []
        self.asserts = []       # (kind, section, formula)
        sec = ""
        for it in self.items:
            if isinstance(it, tuple):
                if it[1] and not it[1].isdigit():
                    sec = it[1]
                continue
            h = it[0] if it else None
            if h == "declare-sort":
                self.sorts.append(it[1])
            elif h == "define-sort":
                self.alias[it[1]] = it[3]
            elif h == "declare-fun":
                self.funs[it[1]] = (it[2], it[3])
            elif h == "declare-const":
                self.funs[it[1]] = ([], it[2])
            elif h == "declare-datatypes":
                for (s, _), cs in zip(it[1], it[2]):
                    self.sorts.append(s)
                    for c in cs:
                        c = [c] if isinstance(c, str) else c
                        self.ctors[c[0]] = ([x[1] for x in c[1:]], s)
            elif h in ("assert", "assert-not", "assert-theory"):
                self.asserts.append((h, sec, it[1] if len(it) == 2 else it))
            elif h in ("declare-rewrite",):
                self.asserts.append((h, sec, it[1]))
            elif h in ("check-sat", "set-option", "set-logic", "get-proof", "exit"):
                pass
            else:
                raise SmtError("unknown command %r" % (h,))
            self.order.append(it)

    def query(self):
        """the formula whose validity the file asks for (un-negated)."""
        k, s, f = self.asserts[-1]
        if k == "assert-not":
            return f
        if k == "assert" and isinstance(f, list) and f[0] == "not":
            return f[1]
        raise SmtError("last assertion is not a negated query")

    def theory(self):
        return self.asserts[:-1]


def unparse(x):
    return x if isinstance(x, str) else "(" + " ".join(unparse(y) for y in x) + ")"


# ------------------------------------------------------------ sort checking
class Sorter:
    def __init__(self, f):
        self.f = f
        self.sig = {}

    def res(self, s):
        n = 0
        while s in self.f.alias and n < 20:
            s, n = self.f.alias[s], n + 1
        return s

    def known_sort(self, s):
        r = self.res(s)
        return r == "Bool" or r in self.f.sorts

    def sort(self, x, env):
        if isinstance(x, str):
            x = [x]
        if not x or isinstance(x[0], list):
            raise SmtError("bad application %s" % unparse(x)[:80])
        h, a = x[0], x[1:]
        if h in ("forall", "exists"):
            e2 = dict(env)
            if len(a) != 2:
                raise SmtError("bad quantifier")
            for v, s in a[0]:
                if not self.known_sort(s):
                    raise SmtError("undeclared sort %s" % s)
                e2[v] = self.res(s)
            self.want(a[1], "Bool", e2)
            return "Bool"
        if h == "let":
            e2 = dict(env)
            for v, d in a[0]:
                e2[v] = self.sort(d, env)
            return self.sort(a[1], e2)
        if not a and h in env:
            return env[h]
        if h in ("true", "false") and not a:
            return "Bool"
        if h == "not":
            if len(a) != 1:
                raise SmtError("not with %d arguments" % len(a))
            self.want(a[0], "Bool", env)
            return "Bool"
        if h in ("and", "or", "=>"):
            if h == "=>" and len(a) < 2:
                raise SmtError("=> with %d arguments" % len(a))
            for y in a:
                self.want(y, "Bool", env)
            return "Bool"
        if h in ("=", "distinct"):
            if len(a) < 2:
                raise SmtError("= with %d arguments" % len(a))
            s = self.sort(a[0], env)
            for y in a[1:]:
                self.want(y, s, env)
            return "Bool"
        if h == "ite":
            if len(a) != 3:
                raise SmtError("ite with %d arguments" % len(a))
            self.want(a[0], "Bool", env)
            s = self.sort(a[1], env)
            self.want(a[2], s, env)
            return s
        if h not in self.sig:
            raise SmtError("symbol %s is used but not declared (before)" % h)
        args, out = self.sig[h]
        if len(args) != len(a):
            raise SmtError("symbol %s applied to %d arguments instead of %d" % (h, len(a), len(args)))
        for y, s in zip(a, args):
            self.want(y, s, env)
        return self.res(out)

    def want(self, x, s, env):
        r = self.sort(x, env)
        if r != self.res(s):
            raise SmtError("%s has sort %s, expected %s" % (unparse(x)[:120], r, self.res(s)))

    def declare(self, h, args, out):
        if h in self.sig:
            raise SmtError("symbol %s declared twice" % h)
        for s in args + [out]:
            if not self.known_sort(s):
                raise SmtError("undeclared sort %s" % s)
        self.sig[h] = (args, out)

    def run(self):
        for it in self.f.order:
            h = it[0]
            if h == "declare-fun":
                self.declare(it[1], it[2], it[3])
            elif h == "declare-const":
                self.declare(it[1], [], it[2])
            elif h == "declare-datatypes":
                for (s, _), cs in zip(it[1], it[2]):
                    for c in cs:
                        c = [c] if isinstance(c, str) else c
                        self.declare(c[0], [x[1] for x in c[1:]], s)
                        for x in c[1:]:
                            self.declare(x[0], [s], x[1])
            elif h in ("assert", "assert-not", "assert-theory", "assert-claim"):
                self.want(it[1], "Bool", {})


def check(f):
    """None, or why the (standard SMT-LIB) file is not well-sorted."""
    try:
        if not f.asserts:
            return "no assertion"
        Sorter(f).run()
        f.query()
        if not any(isinstance(i, list) and i and i[0] == "check-sat" for i in f.items):
            return "no check-sat"
    except SmtError as e:
        return str(e)
    return None
