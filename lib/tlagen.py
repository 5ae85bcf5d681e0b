"""Derives, for one protocol,
  * the TLA+ description of the protocol (from the source, via ptcl.py), and
  * the TLA+ rendering of the theory the tool emitted (via smt.py),
both over the operators of spec/Execution.tla.
"""
import itertools
import re

import ptcl
import smt


class GenError(Exception):
    pass


def ident(s):
    return re.sub(r"[^A-Za-z0-9]", lambda m: "_%02x" % ord(m.group()), s)


def q(s):
    return '"%s"' % s


class Gen:
    def __init__(self, text, sizes=None, maxlen=None):
        self.p = p = ptcl.parse(text)
        self.e = ptcl.Expander(p)
        self.kind = {}
        self.ctors_proj = {}
        self.attacks, self.forges = [], []
        self.size = {t: 2 for t in p.types}
        self.maxlen = 3
        self.opts = {}
        for pr in p.pragmas:
            k = pr[0]
            if k == "proj":
                self.kind[pr[1]] = ("proj", pr[2], int(pr[3]))
                self.ctors_proj.setdefault(pr[2], []).append(int(pr[3]))
            elif k in ("verify", "checksign", "dec", "adec"):
                self.kind[pr[1]] = (k,) + tuple(pr[2:])
            elif k in ("eqpred", "truepred", "falsepred"):
                self.kind[pr[1]] = (k,)
            elif k == "attack":
                self.attacks.append(" ".join(pr[1:]))
            elif k == "forge":
                self.forges.append(" ".join(pr[1:]))
            elif k == "size":
                self.size[pr[1]] = int(pr[2])
            elif k == "maxlen":
                self.maxlen = int(pr[1])
            elif k == "opt":
                self.opts[pr[1]] = " ".join(pr[2:])
        if sizes:
            self.size.update({k: v for k, v in sizes.items() if k in self.size})
        if maxlen is not None:
            self.maxlen = maxlen
        self.names = {f: a for f, (a, o) in p.funs.items() if o == "Name"}
        self.funs = {f: (a, o) for f, (a, o) in p.funs.items() if o != "Name"}
        self.funs.setdefault("empty", ([], "Message"))
        self.steps = {s: self.e.step(s) for s in p.steps}
        # the attacker may also learn every name used outside of key positions,
        # even when only a condition depends on it
        self.strong = self.opts.get("attacker", "strong") == "strong"

    # ------------------------------------------------------------ domains
    def dom(self, sort):
        if sort in self.size:
            return "D_" + ident(sort)
        if sort == "Step":
            return "Steps(w)"
        if sort in ("Bool", "Condition"):
            return "BOOLEAN"
        if sort == "Name":
            return "AllNames"
        raise GenError("no domain for sort " + sort)

    def insts(self, head, sorts):
        return [(head,) + c for c in itertools.product(*[[str(i + 1) for i in range(self.size[s])] for s in sorts])]

    def wrap(self, sort, x):
        if sort in self.size:
            return '<<"$ix", %s>>' % x
        if sort == "Step":
            return '<<"$st", %s>>' % x
        if sort in ("Bool", "Condition"):
            return 'BoolTerm(%s)' % x
        return x

    def fapp(self, f, args):
        return "F_%s(%s)" % (ident(f), ", ".join(args)) if args else "F_" + ident(f)

    # -------------------------------------------------------- source terms
    def term(self, t, W, mdom="MsgDom"):
        r = lambda x: self.term(x, W, mdom)
        k = t[0]
        if k == "var":
            return t[1]
        if k == "infix":
            op, a = t[1], [r(x) for x in t[2]]
            if op == "&&":
                return "(" + " /\\ ".join(a) + ")"
            if op == "||":
                return "(" + " \\/ ".join(a) + ")"
            if op == "=>":
                return "(%s => %s)" % (a[0], a[1])
            if op in ("==", "===", "<=>"):
                return "(" + " /\\ ".join("(%s = %s)" % (a[i], a[i + 1]) for i in range(len(a) - 1)) + ")"
            if op in ("!=", "<>"):
                return "(~(" + " /\\ ".join("(%s = %s)" % (a[i], a[i + 1]) for i in range(len(a) - 1)) + "))"
            raise GenError(op)
        if k == "if":
            return "(IF %s THEN %s ELSE %s)" % tuple(r(x) for x in t[1:])
        if k in ("forall", "exists"):
            nm = sum(1 for _, s in t[1] if s == "Message")
            b = ", ".join("%s \\in %s" % (x, self.mdom(s, nm, k)) for x, s in t[1])
            if not t[1]:
                return r(t[2])
            return "(%s %s : %s)" % ("\\A" if k == "forall" else "\\E", b, r(t[2]))
        if k == "find":
            c, a, b = r(t[2]), r(t[3]), r(t[4])
            n = len(t[1])
            if n == 0:
                return "(IF %s THEN %s ELSE %s)" % (c, a, b)
            doms = [self.dom(s) for _, s in t[1]]
            ex = ", ".join("%s \\in %s" % (x, d) for (x, _), d in zip(t[1], doms))
            if n == 1:
                x = t[1][0][0]
                return ("(IF \\E %s : %s THEN (LET %s_c == CHOOSE %s : %s IN %s) ELSE %s)"
                        % (ex, c, x, ex, c, self.rename(a, {x: x + "_c"}), b))
            tup = "<<" + ", ".join(x for x, _ in t[1]) + ">>"
            z = t[1][0][0] + "_z"
            ren = {x: "%s[%d]" % (z, i + 1) for i, (x, _) in enumerate(t[1])}
            cz = self.rename(c, {x: "%s_y[%d]" % (z, i + 1) for i, (x, _) in enumerate(t[1])})
            return ("(IF \\E %s : %s THEN (LET %s == CHOOSE %s_y \\in (%s) : %s IN %s) ELSE %s)"
                    % (ex, c, z, z, " \\X ".join(doms), cz, self.rename(a, ren), b))
        if k == "app":
            f, a = t[1], t[2]
            if f in ("true", "True"):
                return "TRUE"
            if f in ("false", "False"):
                return "FALSE"
            if f == "not":
                return "(~%s)" % r(a[0])
            b2 = {"happens": "Happens", "lt": "Lt", "leq": "Leq", "gt": "Gt", "pred": "Pred",
                  "input": "Inp", "msg": "Msg", "cond": "Cond", "exec": "Exec"}
            if f in b2 and f not in self.p.funs:
                return "%s(%s)" % (b2[f], ", ".join([W] + [r(x) for x in a]))
            if f in self.p.steps:
                return "St(%s, <<%s>>)" % (W, ", ".join([q(f)] + [r(x) for x in a]))
            if f in self.p.cells:
                *ix, st = a
                return "Cell(%s, <<%s>>, %s)" % (W, ", ".join([q(f)] + [r(x) for x in ix]), r(st))
            if f in self.names:
                return "<<%s>>" % ", ".join([q("$nm"), q(f)] + [r(x) for x in a])
            if f in self.funs:
                return self.fapp(f, [r(x) for x in a])
            raise GenError("unknown symbol " + f)
        raise GenError(str(t))

    @staticmethod
    def rename(s, m):
        for a, b in m.items():
            s = re.sub(r"\b%s\b" % re.escape(a), b, s)
        return s

    def mdom(self, sort, nmsg, k):
        if sort in ("Message", "Bitstring"):
            if k == "exists":
                return "MsgAll(w)"
            return "MsgDom(w)" if nmsg <= 1 else ("MsgMid(w)" if nmsg == 2 else "MsgSmall(w)")
        return self.dom(sort)

    # --------------------------------------------------- protocol module
    def uses_input(self, s):
        found = False

        def walk(t, top):
            nonlocal found
            if isinstance(t, (list, tuple)):
                if len(t) == 3 and t[0] == "app" and t[1] == "input":
                    a = t[2][0]
                    if top or (a[0] == "app" and a[1] == s) or a[0] == "var":
                        if not (top and a[0] == "app" and a[1] != s):
                            found = True
                for x in t:
                    walk(x, top)
        vs, c, m, asg = self.steps[s]
        walk([c, m, asg], True)
        walk(self.e.ex(self.p.query, {}), False)
        for a in self.p.asserts + self.p.lemmas:
            walk(self.e.ex(a, {}), False)
        return found

    def key_positions(self):
        kp = {}
        for f, k in self.kind.items():
            if k[0] == "verify":
                kp[f] = {2}
                kp[k[1]] = {1}
            elif k[0] == "checksign":
                kp[k[1]] = {1}
                kp[k[2]] = {0}
            elif k[0] == "dec":
                kp[f] = {1}
                kp[k[1]] = {1, 2}
        return kp

    def syn_names(self, s, leak=False):
        """TLA+ set expression of all name instances syntactically in step s (args bound);
        with leak: those that its output or condition use outside of key positions."""
        vs, c, m, asg = self.steps[s]
        out = []
        kp = self.key_positions() if leak else {}

        def walk(t, bound):
            if not isinstance(t, tuple):
                return
            k = t[0]
            if k == "app":
                if t[1] in self.names or (leak and t[1] in self.p.cells):
                    out.append((t, dict(bound)))
                for i, x in enumerate(t[2]):
                    if i in kp.get(t[1], ()) and x[0] == "app" and x[1] in self.names:
                        continue
                    walk(x, bound)
            elif k == "infix":
                for x in t[2]:
                    walk(x, bound)
            elif k == "if":
                for x in t[1:]:
                    walk(x, bound)
            elif k in ("forall", "exists"):
                walk(t[2], {**bound, **dict(t[1])})
            elif k == "find":
                b = {**bound, **dict(t[1])}
                walk(t[2], b), walk(t[3], b), walk(t[4], bound)
        walk(c, {}), walk(m, {})
        for fv, _, args, ct in asg if not leak else []:
            for x in args + [ct]:
                walk(x, dict(fv))
        sets = ["{}"]
        for t, b in out:
            if t[1] in self.p.cells:
                e = self.term(t, "W")
                fv = {x for x in re.findall(r"\bv\d+_\w*", e)}
                b = {x: s2 for x, s2 in b.items() if x in fv}
                sets.append("UNION {OpenNames(%s) : %s}" % (e, ", ".join("%s \\in %s" % (x, self.dom(s2)) for x, s2 in b.items())) if b else "OpenNames(%s)" % e)
                continue
            e = "<<%s>>" % ", ".join([q("$nm"), q(t[1])] + [self.term(x, "W") for x in t[2]])
            fv = {x for x in re.findall(r"\bv\d+_\w*", e)}
            b = {x: s2 for x, s2 in b.items() if x in fv}
            sets.append("{%s : %s}" % (e, ", ".join("%s \\in %s" % (x, self.dom(s2)) for x, s2 in b.items())) if b else "{%s}" % e)
        return vs, " \\cup ".join(sets)

    def tag_heads(self):
        return sorted({k[1] for k in self.kind.values() if k[0] in ("verify", "checksign", "dec")})

    def syn_tags(self, s, leak=False):
        """TLA+ set expression of all tags (macs, signatures, ciphertexts) syntactically in step s;
        with leak: those its output or condition compute, other than to check one."""
        vs, c, m, asg = self.steps[s]
        heads = self.tag_heads()
        hmac = self.opts.get("hmac")
        out = []

        def walk(t, bound, checked=False):
            if not isinstance(t, tuple):
                return
            k = t[0]
            if k == "app":
                if t[1] in heads and not checked:
                    out.append((t, dict(bound)))
                elif leak and t[1] in self.p.cells:
                    out.append((t, dict(bound)))
                for i, x in enumerate(t[2]):
                    walk(x, bound)
            elif k == "infix":
                for x in t[2]:
                    walk(x, bound, bool(hmac) and t[1] in ("==", "!=", "===", "<>"))
            elif k == "if":
                for x in t[1:]:
                    walk(x, bound)
            elif k in ("forall", "exists"):
                walk(t[2], {**bound, **dict(t[1])})
            elif k == "find":
                b = {**bound, **dict(t[1])}
                walk(t[2], b), walk(t[3], b), walk(t[4], bound)
        walk(c, {}), walk(m, {})
        for fv, _, args, ct in asg if not leak else []:
            walk(ct, dict(fv))
        sets = ["{}"]
        for t, b in out:
            e = self.term(t, "W")
            fv = {x for x in re.findall(r"\bv\d+_\w*", e)}
            b = {x: s2 for x, s2 in b.items() if x in fv}
            if any(s2 not in self.size for s2 in b.values()):
                continue
            if t[1] in self.p.cells:
                e = "{u \\in Subterms(%s) : u[1] \\in TagHeads}" % e
                sets.append("UNION {%s : %s}" % (e, ", ".join("%s \\in %s" % (x, self.dom(s2)) for x, s2 in b.items())) if b else e)
            else:
                sets.append("{%s : %s}" % (e, ", ".join("%s \\in %s" % (x, self.dom(s2)) for x, s2 in b.items())) if b else "{%s}" % e)
        return vs, " \\cup ".join(sets)

    def used_tags(self, L, op, leak):
        arms = []
        for s in self.steps:
            vs, e = self.syn_tags(s, leak)
            let = "".join("LET %s == s[%d] IN " % (x, i + 2) for i, (x, _) in enumerate(vs))
            arms.append("s[1] = %s -> (%s%s)" % (q(s), let, e))
        L.append("%s(W, s) ==\n  CASE %s\n    [] OTHER -> {}" % (op, "\n    [] ".join(arms)))

    def safe_keys(self):
        """name families that only ever occur as keys: nothing but forging breaks them"""
        kp = self.key_positions()
        bad = set()

        def walk(t):
            if isinstance(t, (list, tuple)):
                if len(t) == 3 and t[0] == "app" and isinstance(t[1], str):
                    if t[1] in self.names:
                        bad.add(t[1])
                    for i, x in enumerate(t[2]):
                        if i in kp.get(t[1], ()) and x[0] == "app" and x[1] in self.names:
                            continue
                        walk(x)
                    return
                for x in t:
                    walk(x)
        for s, (vs, c, m, asg) in self.steps.items():
            walk([c, m] + [ct for _, _, _, ct in asg])
        walk(self.e.ex(self.p.query, {}))
        for a in self.p.asserts + self.p.lemmas:
            walk(self.e.ex(a, {}))
        return [f for f in self.names if f not in bad]

    def used_names(self, L, op, leak):
        arms = []
        for s in self.steps:
            vs, e = self.syn_names(s, leak)
            let = "".join("LET %s == s[%d] IN " % (x, i + 2) for i, (x, _) in enumerate(vs))
            arms.append("s[1] = %s -> (%s%s)" % (q(s), let, e))
        L.append("%s(W, s) ==\n  CASE %s\n    [] OTHER -> {}" % (op, "\n    [] ".join(arms)))

    def fun_defs(self):
        L = []
        for f, (a, o) in self.funs.items():
            xs = ["x%d" % i for i in range(len(a))]
            h = "F_%s%s" % (ident(f), "(%s)" % ", ".join(xs) if xs else "")
            k = self.kind.get(f)
            if k is None:
                body = "<<%s>>" % ", ".join([q(f)] + [self.wrap(s, x) for s, x in zip(a, xs)])
                if o in ("Bool", "Condition"):
                    body = "FALSE"
            elif k[0] == "proj":
                body = "Project(%s, %s, %d, x0)" % (q(f), q(k[1]), k[2])
            elif k[0] == "verify":
                body = "x0 = <<%s, x1, x2>>" % q(k[1])
            elif k[0] == "checksign":
                body = "x2[1] = %s /\\ x0 = <<%s, x1, x2[2]>>" % (q(k[2]), q(k[1]))
            elif k[0] == "dec":
                body = "IF x0[1] = %s THEN (IF x0[4] = x1 THEN x0[2] ELSE <<%s>>) ELSE <<%s>>" % (q(k[1]), q(k[2]), q(k[2]))
            elif k[0] == "eqpred":
                body = "x0 = x1"
            elif k[0] == "truepred":
                body = "TRUE"
            elif k[0] == "falsepred":
                body = "FALSE"
            L.append("%s == %s" % (h, body))
        return L

    def template(self, text):
        """attack/forge templates: X,Y,Z known atoms/messages, K known names, S secret names,
        `att` the attacker constant."""
        t = ptcl.Parser(ptcl.tokenize(text)[0]).term()
        vs = []

        def walk(t):
            k, f, a = t
            if f == "att":
                return "Att"
            if f in ("X", "Y", "Z", "K", "K2", "S", "M", "T", "P", "Q") and not a:
                if f not in vs:
                    vs.append(f)
                return "a_" + f
            if f in self.names:
                return "<<%s>>" % ", ".join([q("$nm"), q(f)] + ['"%s"' % x[1].lstrip("i") for x in a])
            return self.fapp(f, [walk(x) for x in a])
        e = walk(t)
        dom = {"X": "atoms", "Y": "atoms", "Z": "atoms", "M": "known", "K": "keys", "K2": "keys", "S": "secret",
               "T": "{t \\in known : t[1] \\in TagHeads}", "P": "({t[2] : t \\in {u \\in known : u[1] \\in TagHeads}} \\cup PubConsts \\cup {Att})",
               "Q": "(AllNames \\cup PubConsts \\cup {Att})"}
        if not vs:
            return "{%s}" % e
        return "{%s : %s}" % (e, ", ".join("a_%s \\in %s" % (v, dom[v]) for v in vs))

    def protocol(self):
        p = self.p
        L = ["(* ---- derived from the protocol source ---- *)"]
        for t in p.types:
            L.append("D_%s == {%s}" % (ident(t), ", ".join(q(str(i + 1)) for i in range(self.size[t]))))
        L.append('BoolTerm(b) == IF b THEN <<"$true">> ELSE <<"$false">>')
        tup = lambda c: "<<%s>>" % ", ".join(q(x) for x in c)
        ni = [("$nm",) + c for f, a in self.names.items() for c in self.insts(f, a)]
        L.append("AllNames == {%s}" % ", ".join(map(tup, ni)))
        si = [c for s, (vs, *_) in self.steps.items() if s != "init" for c in self.insts(s, [x for _, x in vs])]
        L.append("P_StepInsts == {%s}" % ", ".join(map(tup, si)))
        ci = [c for s, (a, _) in p.cells.items() for c in self.insts(s, a)]
        L.append("P_CellInsts == {%s}" % ", ".join(map(tup, ci)))
        L += self.fun_defs()

        def bystep(opname, extra, what, default):
            arms = []
            for s, (vs, c, m, asg) in self.steps.items():
                let = "".join("LET %s == s[%d] IN " % (x, i + 2) for i, (x, _) in enumerate(vs))
                arms.append("s[1] = %s -> (%s%s)" % (q(s), let, what(s, c, m, asg)))
            L.append("%s(W, s%s) ==\n  CASE %s\n    [] OTHER -> %s" % (opname, extra, "\n    [] ".join(arms), default))
        bystep("P_MsgOf", "", lambda s, c, m, a: self.term(m, "W"), "NoMsg")
        bystep("P_CondOf", "", lambda s, c, m, a: self.term(c, "W"), "FALSE")

        def upd(s, c, m, asg):
            e = "Cell(W, cc, Pred(W, s))"
            for fv, cell, args, ct in reversed(asg):
                tt = "<<%s>>" % ", ".join([q(cell)] + [self.term(x, "W") for x in args])
                if not fv:
                    e = "(IF cc = %s THEN %s ELSE %s)" % (tt, self.term(ct, "W"), e)
                else:
                    # (x: T) c(x) <- t : the fresh variables must be determined by the arguments
                    let = []
                    for x, _ in fv:
                        j = [i for i, ag in enumerate(args) if ag[0] == "var" and ag[1] == x]
                        if not j:
                            raise GenError("unbound fresh variable in assignment")
                        let.append("LET %s == cc[%d] IN " % (x, j[0] + 2))
                    e = "(IF cc[1] = %s THEN (%sIF cc = %s THEN %s ELSE %s) ELSE %s)" % (
                        q(cell), "".join(let), tt, self.term(ct, "W"), e, e)
            return e
        bystep("P_MemOf", ", cc", upd, "NoMsg")
        # orders
        os = ["TRUE"]
        for qk, vs, g, a, op, b in p.orders:
            v2, env = self.e.bind(vs, {})
            ta, tb = (self.term(self.e.ex(x, env), "W") for x in (a, b))
            if op == ">":
                ta, tb = tb, ta
            if op == "<>":
                body = "~(Happens(W, %s) /\\ Happens(W, %s))" % (ta, tb)
            else:
                body = "(Happens(W, %s) => Leq(W, %s, %s))" % (tb, ta, tb)
            if g:
                body = "(%s => %s)" % (self.term(self.e.ex(g, env), "W"), body)
            if v2:
                body = "(%s %s : %s)" % ("\\A" if qk == "forall" else "\\E",
                                         ", ".join("%s \\in %s" % (x, self.dom(s).replace("(w)", "(W)")) for x, s in v2), body)
            os.append(body)
        L.append("P_OrderOk(W) ==\n  /\\ " + "\n  /\\ ".join(os))
        # attacker
        ana = ["S"]
        for f, idx in self.ctors_proj.items():
            ana.append('UNION {IF t[1] = %s THEN {%s} ELSE {} : t \\in S}' % (q(f), ", ".join("t[%d]" % (i + 1) for i in idx)))
        for d, k in self.kind.items():
            if k[0] == "dec":
                ana.append('UNION {IF t[1] = %s THEN (IF t[4] \\in S THEN {t[2]} ELSE {}) ELSE {} : t \\in S}' % q(k[1]))
        L.append("TagHeads == {%s}" % ", ".join(map(q, self.tag_heads())))
        kp = sorted((f, i) for f, ii in self.key_positions().items() for i in ii)
        L.append("KeyPos == {%s}" % ", ".join("<<%s, %d>>" % (q(f), i + 2) for f, i in kp))
        L.append('RECURSIVE OpenNames(_)\nOpenNames(t) ==\n  IF t[1] = "$nm" THEN {t} ELSE IF t[1] \\in {"$ix", "$st", "$cell0"} THEN {}\n'
                 '  ELSE UNION {IF <<t[1], i>> \\in KeyPos /\\ IsName(t[i]) THEN {} ELSE OpenNames(t[i]) : i \\in 2..Len(t)}')
        L.append("Ana(S) == " + " \\cup ".join(ana))
        if self.strong:
            self.used_names(L, "LeakedNames", True)
            if self.tag_heads():
                self.used_tags(L, "LeakedTags", True)
        L.append("Leaked(W) == " + ("UNION {LeakedNames(W, t) : t \\in DOMAIN W.inp}" if self.strong else "{}")
                 + (" \\cup UNION {LeakedTags(W, t) : t \\in DOMAIN W.inp}" if self.strong and self.tag_heads() else ""))
        L.append("Outputs(W) == {W.msg[t] : t \\in DOMAIN W.msg}")
        L.append("Known(W) == Ana(Ana(Ana(Outputs(W) \\cup Leaked(W)))) \\cup {Att}")
        consts = ["<<%s>>" % q(f) for f, (a, o) in self.funs.items() if not a and o == "Message" and f not in self.kind]
        L.append("PubConsts == {%s}" % ", ".join(consts))
        # a key under which the randomness of encryptions is known, isn't random or is used for two messages isn't safe
        encs = sorted({k[1] for k in self.kind.values() if k[0] == "dec"})
        if encs:
            L.append("Misused(K) ==\n  LET es == {u \\in UNION {Subterms(t) : t \\in K} : u[1] \\in {%s}}\n"
                     "  IN {u[4] : u \\in {u \\in es : IsName(u[4]) /\\ (~IsName(u[3]) \\/ u[3] \\in K \\/ (\\E v \\in es : v[3] = u[3] /\\ v[4] = u[4] /\\ v[2] # u[2]))}}"
                     % ", ".join(map(q, encs)))
        else:
            L.append("Misused(K) == {}")
        inp = {s: self.uses_input(s) for s in self.steps}
        L.append("UsesInput == {%s}" % ", ".join(q(s) for s, b in inp.items() if b))
        L.append("Atoms(K) == {t \\in K : t[1] \\in {\"$nm\", \"$att\"}}")
        tm = ["known"] + [self.template(x) for x in self.attacks]
        L.append("P_Inputs(W, s) ==\n  IF s[1] \\notin UsesInput THEN {Att}\n  ELSE LET known == Known(W)\n           atoms == Atoms(known)\n"
                 "           keys == {t \\in known : IsName(t)} \\cup Misused(known)\n       IN " + " \\cup ".join(tm))
        # names syntactically used by performed steps
        self.used_names(L, "UsedNames", False)
        L.append("AllUsed(W) == UNION {UsedNames(W, t) : t \\in DOMAIN W.inp}")
        L.append("P_Guesses(W, s) == AllNames \\ AllUsed(W)")
        if self.forges:
            L.append("SafeKeys == {%s}" % ", ".join(q(f) for f in self.safe_keys()))
            self.used_tags(L, "SynTags", False)
            self.used_tags(L, "CheckedTags", True)
            L.append("P_Forgeries(W, s) ==\n  IF s[1] \\notin UsesInput THEN {}\n  ELSE LET known == Known(W)\n           atoms == Atoms(known)\n"
                     "           keys == {t \\in known : IsName(t)} \\cup Misused(known)\n           secret == ({t \\in AllNames : t[2] \\in SafeKeys} \\ known) \\ Misused(known)\n"
                     "           honest == UNION {Subterms(W.msg[t]) : t \\in DOMAIN W.msg} \\cup UNION {UNION {Subterms(u) : u \\in SynTags(W, t)} : t \\in DOMAIN W.inp}\n"
                     "           cand == " + " \\cup ".join(self.template(x) for x in self.forges) + "\n"
                     "       IN {v \\in cand : /\\ P_CondOf(Perform(W, s, v), s)\n"
                     "                        /\\ ~P_CondOf(Perform(W, s, Att), s)\n"
                     "                        /\\ \\E t \\in Subterms(v) : t[1] \\in ForgeHeads /\\ t \\notin honest\n"
                     "                              /\\ t \\notin UNION {Subterms(u) : u \\in CheckedTags(Perform(W, s, v), s)}}")
            L.insert(1, "ForgeHeads == {%s}" % ", ".join(sorted({q(k[1]) for k in self.kind.values() if k[0] in ("verify", "checksign", "dec")} | {q(x) for x in self.opts.get("forgehead", "").split()})))
        else:
            L.append("P_Forgeries(W, s) == {}")
        # message domains for quantifiers
        L.append("MsgAll(W) == UNION {Subterms(t) : t \\in {W.inp[u] : u \\in DOMAIN W.inp} \\cup {W.msg[u] : u \\in DOMAIN W.msg} \\cup UNION {{W.mem[u][c] : c \\in P_CellInsts} : u \\in DOMAIN W.mem}} \\cup AllNames \\cup {Att, NoMsg%s}"
                 % "".join(", " + c for c in consts))
        L.append("LastS(W) == W.ord[Len(W.ord)]")
        L.append("SomeName == CHOOSE n \\in AllNames \\cup {NoMsg} : TRUE")
        L.append("MsgDom(W) == {W.inp[u] : u \\in DOMAIN W.inp} \\cup {W.msg[u] : u \\in DOMAIN W.msg} \\cup AllNames \\cup {Att, NoMsg}")
        L.append("MsgMid(W) == {W.inp[LastS(W)], W.msg[LastS(W)], Att, NoMsg, SomeName}")
        L.append("MsgSmall(W) == {W.inp[LastS(W)], W.msg[LastS(W)], SomeName}")
        L.append("Src_Query == " + self.term(self.e.ex(p.query, {}), "w"))
        for i, a in enumerate(p.asserts):
            L.append("Src_Assert_%d == %s" % (i + 1, self.term(self.e.ex(a, {}), "w")))
        for i, a in enumerate(p.lemmas):
            L.append("Src_Lemma_%d == %s" % (i + 1, self.term(self.e.ex(a, {}), "w")))
        return L

    # ------------------------------------------------------ emitted side
    def emitted(self, f, ovr=False):
        """f: smt.File -> (definitions, [(axiom operator, section)])"""
        return Emitted(self, f, ovr).run()


def words(t, memo):
    """every symbol of t"""
    k = id(t)
    if k not in memo:       # t is kept, so that no other one gets its id
        memo[k] = t, frozenset([t]) if isinstance(t, str) else frozenset().union(*[words(y, memo) for y in t])
    return memo[k][1]


def narrow(x):
    """An equivalent formula (domains aren't empty) in which the quantifiers of x range over as little as possible, or x."""
    h, vs, b = x
    if isinstance(b, str) or len(vs) < 2:
        return x
    memo = {}
    op, co = ("or", "and") if h == "exists" else ("and", "or")

    def flat(t, o):
        return [z for y in t[1:] for z in flat(y, o)] if isinstance(t, list) and t and t[0] == o else [t]

    def put(vs, b):
        used = words(b, memo)
        vs = [v for v in vs if v[0] in used]
        if not vs:
            return b
        ds = flat(b, op)
        if len(ds) > 1:
            return [op] + [put(vs, d) for d in ds]
        cs = flat(b, co)
        if len(cs) == 1:
            return [h, vs, b]
        w = [(c, [v for v in vs if v[0] in words(c, memo)]) for c in cs]
        out = [c for c, u in w if not u]
        rest = sorted([(c, u) for c, u in w if u], key=lambda z: len(z[1]))
        while rest:
            # what is connected to the first one
            comp, names = [], set(v[0] for v in rest[0][1])
            grown = True
            while grown:
                grown = False
                for z in list(rest):
                    if names & set(v[0] for v in z[1]):
                        names |= set(v[0] for v in z[1])
                        rest.remove(z)
                        comp.append(z)
                        grown = True
            first = comp[0][1]
            fn = set(v[0] for v in first)
            here = [c for c, u in comp if set(v[0] for v in u) <= fn]
            later = [c for c, u in comp if not set(v[0] for v in u) <= fn]
            if later:
                here.append(put([v for v in vs if v[0] in names and v[0] not in fn], [co] + later))
            out.append([h, first, [co] + here if len(here) > 1 else here[0]])
        return [co] + out if len(out) > 1 else out[0]

    y = put(vs, b)
    return x if y == x or (y[0] == h and y[1] == vs and isinstance(y[2], list) and b[0] == y[2][0] and sorted(map(str, flat(y[2], y[2][0]))) == sorted(map(str, flat(b, b[0])))) else y


def subst(t, v, u):
    """t[v := u]; None where u's symbols could be captured"""
    if isinstance(t, str):
        return u if t == v else t
    if t and t[0] in ("forall", "exists", "let"):
        bs = [b[0] for b in t[1]]
        if v in words(t[2], {}) and set(bs) & words(u, {}):
            return None
        if t[0] == "let":
            ds = [subst(b[1], v, u) for b in t[1]]
            b = t[2] if v in bs else subst(t[2], v, u)
            return None if b is None or None in ds else ["let", [[n, d] for n, d in zip(bs, ds)], b]
        if v in bs:
            return t
        b = subst(t[2], v, u)
        return None if b is None else [t[0], t[1], b]
    r = [subst(y, v, u) for y in t]
    return None if None in r else r


def onepoint(v, s, b):
    """exists v. b, without the quantifier where b gives the value of v (which needn't be in the finite domain of the
    model), or None."""
    def flat(t, o):
        return [z for y in t[1:] for z in flat(y, o)] if isinstance(t, list) and t and t[0] == o else [t]

    def conj(cs):
        return ["and"] + cs if len(cs) > 1 else cs[0] if cs else "true"

    def go(cs, top):
        """exists v. the conjunction of cs; None if nothing gives v"""
        if not any(v in words(c, {}) for c in cs):
            return conj(cs)
        for k, c in enumerate(cs):
            if isinstance(c, list) and len(c) == 3 and c[0] == "=":
                for x, t in ((c[1], c[2]), (c[2], c[1])):
                    if (x == v or x == [v]) and v not in words(t, {}):
                        r = [subst(y, v, t) for y in cs[:k] + cs[k + 1:]]
                        return None if None in r else conj(r)
        for k, c in enumerate(cs):
            if isinstance(c, list) and c and c[0] == "or" and v in words(c, {}):
                ds = flat(c, "or")
                l = [go(flat(d, "and") + cs[:k] + cs[k + 1:], False) for d in ds]
                if all(x is None for x in l):
                    continue
                l = [["exists", [[v, s]], conj(flat(d, "and") + cs[:k] + cs[k + 1:])] if x is None else x for x, d in zip(l, ds)]
                return ["or"] + l
            if isinstance(c, list) and c and c[0] == "exists" and v in words(c, {}) and v not in [x[0] for x in c[1]]:
                if set(x[0] for x in c[1]) & frozenset().union(*[words(y, {}) for y in cs[:k] + cs[k + 1:]] or [frozenset()]):
                    continue
                i = go(flat(c[2], "and") + cs[:k] + cs[k + 1:], False)
                if i is not None:
                    return ["exists", c[1], i]
        return None

    return go(flat(b, "and"), True)


class Emitted:
    def __init__(self, g, f, ovr=False):
        self.g, self.f = g, f
        self.sig = dict(f.ctors, **f.funs)
        self.n = 0
        self.aux = {}       # auxiliary symbol -> (params, body sexpr)
        self.auxdefs = []
        self.unknown = []
        self.ovr = ovr      # make auxiliary symbols alterable
        self.ovr_syms = {}
        self.defined = set()

    def resolve_sort(self, s):
        seen = 0
        while s in self.f.alias and seen < 10:
            s = self.f.alias[s]
            seen += 1
        return {"Bitstring": "Message", "Condition": "Bool"}.get(s, s)

    def fresh(self, x):
        self.n += 1
        return "e%d_%s" % (self.n, ident(x))

    BUILTIN = {"happens": "Happens", "lt": "Lt", "leq": "Leq", "gt": "Gt", "pred": "Pred",
               "input": "Inp", "msg": "Msg", "cond": "Cond", "exec": "Exec"}
    LOGIC = {"ta$and": "and", "ta$or": "or", "ta$not": "not", "ta$implies": "=>", "ta$iff": "=",
             "ta$=": "=", "ta$true": "true", "ta$false": "false", "ta$ite": "ite"}

    def tr(self, x, env):
        if isinstance(x, str):
            x = [x]
        h = x[0]
        if isinstance(h, list):
            raise GenError("higher order head")
        if len(x) == 1 and h in env:
            return env[h]
        if h in ("forall", "exists"):
            e2 = dict(env)
            bs = []
            nm = sum(1 for v in x[1] if self.resolve_sort(v[1]) == "Message")
            if h == "exists" and nm:
                v, so = [z for z in x[1] if self.resolve_sort(z[1]) == "Message"][-1]
                y = onepoint(v, so, x[2])
                if y is not None:
                    rest = [z for z in x[1] if z[0] != v]
                    return self.tr(["exists", rest, y] if rest else y, env)
            y = narrow(x) if not nm else x
            if y is not x:
                return self.tr(y, env)
            for v, s in x[1]:
                y = self.fresh(v)
                e2[v] = y
                bs.append("%s \\in %s" % (y, self.g.mdom(self.resolve_sort(s), nm, h)))
            b = self.tr(x[2], e2)
            if not bs:
                return b
            return "(%s %s : %s)" % ("\\A" if h == "forall" else "\\E", ", ".join(bs), b)
        if h == "let":
            e2 = dict(env)
            for v, d in x[1]:
                e2[v] = self.tr(d, env)
            return self.tr(x[2], e2)
        if h == "=>" and isinstance(x[1], str) is False and len(x) == 3:
            pass
        a = x[1:]
        if h.startswith("eval$"):       # what a symbol of the term algebra evaluates to
            if self.ovr == "eval" and h in self.sig:
                args, out = [self.resolve_sort(y) for y in self.sig[h][0]], self.resolve_sort(self.sig[h][1])
                return self.over(h, args, [self.tr(y, env) for y in a], out, self.tr([h[5:]] + a, env))
            h = h[5:]
        if h in self.LOGIC:
            if self.ovr is True and self.LOGIC[h] not in ("true", "false"):
                ss = {"ta$not": ["Bool"], "ta$=": ["Message"] * 2, "ta$ite": ["Bool", "Message", "Message"]}.get(h, ["Bool"] * 2)
                xs = [self.fresh("a") for _ in a]
                r = self.tr([self.LOGIC[h]] + ["@" + y for y in xs], dict({"@" + y: y for y in xs}))
                r = self.over(h, ss, xs, "Message" if h == "ta$ite" else "Bool", r)
                return "(" + "".join("LET %s == %s IN " % (y, self.tr(z, env)) for y, z in zip(xs, a)) + r + ")"
            h = self.LOGIC[h]
        if h == "true":
            return "TRUE"
        if h == "false":
            return "FALSE"
        if h == "not":
            return "(~%s)" % self.tr(a[0], env)
        if h == "and":
            return "(" + " /\\ ".join(self.tr(y, env) for y in a) + ")" if a else "TRUE"
        if h == "or":
            return "(" + " \\/ ".join(self.tr(y, env) for y in a) + ")" if a else "FALSE"
        if h == "=>":
            r = self.tr(a[-1], env)
            for y in reversed(a[:-1]):
                r = "(%s => %s)" % (self.tr(y, env), r)
            return r
        if h == "=" or ("$rewrite_" in h and len(a) == 2 and h in self.sig):
            b = [self.tr(y, env) for y in a]
            return "(" + " /\\ ".join("(%s = %s)" % (b[i], b[i + 1]) for i in range(len(b) - 1)) + ")"
        if h == "distinct":
            b = [self.tr(y, env) for y in a]
            return "(" + " /\\ ".join("(%s # %s)" % (b[i], b[j]) for i in range(len(b)) for j in range(i)) + ")"
        if h == "ite":
            return "(IF %s THEN %s ELSE %s)" % tuple(self.tr(y, env) for y in a)
        if h in ("evaluate_msg", "evaluate_cond") or h.startswith("cast$"):
            return self.tr(a[0], env)
        b = [self.tr(y, env) for y in a]
        if h in self.BUILTIN and h not in self.g.p.funs:
            r = "%s(%s)" % (self.BUILTIN[h], ", ".join(["w"] + b))
            if self.ovr is True and h in ("lt", "leq", "gt", "happens", "pred"):
                return self.over(h, ["Step"] * len(b), b, "Step" if h == "pred" else "Bool", r)
            return r
        if h in self.g.p.steps:
            return "St(w, <<%s>>)" % ", ".join([q(h)] + b)
        if h in self.g.p.cells:
            return "Cell(w, <<%s>>, %s)" % (", ".join([q(h)] + b[:-1]), b[-1])
        if h in self.g.names:
            return "<<%s>>" % ", ".join([q("$nm"), q(h)] + b)
        if h in self.g.funs:
            return self.g.fapp(h, b)
        if h in self.sig:
            args, out = self.sig[h]
            if "subterm" in h and len(args) == 2 and args[0] == "Name":
                if args[1] == "Message":
                    return "OccursIn(%s, %s)" % (b[0], b[1])
                if args[1] == "Name":
                    return "(%s = %s)" % (b[0], b[1])
                return "FALSE"
            r = self.auxapp(h, b)
            if self.ovr is True and h in self.defined:
                args, out = self.sig[h]
                return self.over(h, [self.resolve_sort(y) for y in args], b, self.resolve_sort(out), r)
            return r
        raise GenError("symbol %r is neither declared in the file nor known" % h)

    # auxiliary (tool-introduced) symbols are interpreted by their definition
    def find_def(self, h):
        skolem = []
        for _, _, f in self.f.asserts:
            vs = []
            while isinstance(f, list) and f[0] == "forall":
                vs += f[1]
                f = f[2]
            if isinstance(f, list) and f[0] in ("=>", "=") and len(f) == 3:
                l = f[1] if isinstance(f[1], list) else [f[1]]
                if l[0] in ("evaluate_msg", "evaluate_cond") and len(l) == 2:
                    l = l[1] if isinstance(l[1], list) else [l[1]]
                if l[0] == h and [v for v, _ in vs] == l[1:]:
                    return vs, f[2]
        return None

    def find_skolem(self, h):
        """find-such-that selectors: forall xs. (forall ys. ~C(ys)) \\/ C(sk(xs))"""
        for _, _, f in self.f.asserts:
            vs = []
            while isinstance(f, list) and f[0] == "forall":
                vs += f[1]
                f = f[2]
            if isinstance(f, list) and f[0] == "or" and len(f) == 3 and isinstance(f[1], list) and f[1][0] == "forall":
                neg = f[1][2]
                if isinstance(neg, list) and neg[0] == "not" and h in smt.unparse(f[2]).replace("(", " ").replace(")", " ").split():
                    sk = self.skolem_order(neg[1], f[2], [v for v, _ in f[1][1]])
                    if sk and h in sk:
                        return vs, f[1][1], neg[1], sk
        return None

    def skolem_order(self, pat, inst, ys):
        """the selector symbol standing for each y of ys"""
        m = {}

        def walk(p, t):
            if isinstance(p, str):
                if p in ys:
                    m.setdefault(p, t[0] if isinstance(t, list) else t)
                return
            if isinstance(t, list) and len(p) == len(t):
                for a, b in zip(p, t):
                    walk(a, b)
        walk(pat, inst)
        return [m.get(y) for y in ys]

    def over(self, h, sorts, b, out, r):
        self.ovr_syms[h] = sorts
        enc = {"Bool": "EncB(%s)", "Step": "EncS(%s)", "Message": "%s", "Name": "%s"}
        a = "<<%s>>" % ", ".join(enc.get(so, "EncI(%s)") % y for so, y in zip(sorts, b))
        op = {"Bool": "OvB", "Step": "OvS", "Message": "OvM"}[out]
        return "%s(w, %s, %s, %s)" % (op, q(h), a, r)

    def overrides(self):
        L = ["{}"]
        for h, sorts in sorted(self.ovr_syms.items()):
            vs = ["o%d" % i for i in range(len(sorts))]
            enc = {"Bool": "EncB(%s)", "Step": "EncS(%s)", "Message": "%s", "Name": "%s"}
            a = "<<%s>>" % ", ".join(enc.get(so, "EncI(%s)") % y for so, y in zip(sorts, vs))
            nm = sorts.count("Message")
            dom = [("MsgMid(W)" if nm <= 1 else "MsgSmall(W)") if so == "Message" else self.g.dom(so).replace("(w)", "(W)") for so in sorts]
            e = "[h |-> %s, a |-> %s]" % (q(h), a)
            L.append("{%s : %s}" % (e, ", ".join("%s \\in %s" % z for z in zip(vs, dom))) if vs else "{%s}" % e)
        return "P_Overrides(W) ==\n  " + "\n  \\cup ".join(L)

    def auxapp(self, h, b):
        if h not in self.aux:
            self.aux[h] = None
            op = "X_" + ident(h)
            d = self.find_def(h)
            if d is not None:
                self.defined.add(h)
                vs, body = d
                ps = [self.fresh(v) for v, _ in vs]
                e = self.tr(body, {v: p for (v, _), p in zip(vs, ps)})
                self.auxdefs.append("%s%s == %s" % (op, "(%s)" % ", ".join(ps) if ps else "", e))
            else:
                d = self.find_skolem(h)
                if d is None:
                    # unconstrained by the theory: any value will do
                    args, out = self.sig[h]
                    ps = [self.fresh("p") for _ in args]
                    dom = self.g.mdom(self.resolve_sort(out), 1, "exists")
                    self.unknown.append(h)
                    self.auxdefs.append("%s%s == CHOOSE u \\in %s : TRUE" % (op, "(%s)" % ", ".join(ps) if ps else "", dom))
                    return "%s(%s)" % (op, ", ".join(b)) if b else op
                vs, ys, c, sk = d
                ps = [self.fresh(v) for v, _ in vs]
                env = {v: p for (v, _), p in zip(vs, ps)}
                zs = [self.fresh(y) for y, _ in ys]
                e2 = dict(env)
                z = self.fresh("z")
                for i, (y, _) in enumerate(ys):
                    e2[y] = "%s[%d]" % (z, i + 1) if len(ys) > 1 else z
                ce = self.tr(c, e2)
                doms = [self.g.mdom(self.resolve_sort(s), 1, "exists") for _, s in ys]
                D = "(" + " \\X ".join(doms) + ")"
                pick = "(LET dd == {%s \\in %s : %s} IN IF dd = {} THEN CHOOSE u \\in %s : TRUE ELSE CHOOSE u \\in dd : TRUE)" % (z, D, ce, D)
                i = sk.index(h)
                self.auxdefs.append("%s%s == %s%s" % (op, "(%s)" % ", ".join(ps) if ps else "", pick, "[%d]" % (i + 1) if len(ys) > 1 else ""))
        op = "X_" + ident(h)
        return "%s(%s)" % (op, ", ".join(b)) if b else op

    def run(self, drop=None):
        """drop: axioms about symbols with this in their name are left out"""
        out, names = [], []
        th = self.f.theory()
        if drop:
            memo = {}
            th = [x for x in th if not any(drop in y for y in words(x[2], memo))]
        defs = []
        for i, (k, sec, f) in enumerate(th):
            defs.append("Ax_%d == %s" % (i + 1, self.tr(f, {})))
            names.append(("Ax_%d" % (i + 1), sec))
        qd = "Emit_Query == " + self.tr(self.f.query(), {})
        return ["(* ---- derived from the file the tool emitted ---- *)"] + self.auxdefs + defs + [qd, self.overrides()], names
