"""Squirrel dumps: a description of a system as Squirrel sends it (JSON), and what it means.

A dump is built once (class Dump) and written twice: as the JSON the tool reads, and, for each of the systems
of the dump (the branches of its `diff's), as a protocol the specification understands (spec/Execution.tla through
tlagen).  The second is written from what Squirrel means, not from what the tool does with it:

  <t1,..,tn> and its projections (from 1)   nested pairs
  a global macro m(is)@A                    its body, for these indices, with the inputs of the steps leading to A
  an action's place in the process          it happens after the actions leading to it, and never together with
                                            an action on another branch of the same choice
  hypotheses, free variables                the goal holds for all the variables, under the hypotheses
"""
import json
import random
import re

import genauth
import ptcl

# terms: ("var", x, ty) ("name", n, args) ("op", f, args) ("tuple", ts) ("proj", i, t) ("find", vs, c, a, b)
#        ("quant", "ForAll"|"Exists", vs, t) ("macro", kind, ts) ("cell", c, args, ts) ("action", a, args)
#        ("glob", g, args, ts, meaning) ("diff", [t..])
# types: "Message" "Boolean" "Index" "Timestamp" ("T", name) ("*", types)

PREFIX, INFIX = {"Abstract": "Prefix"}, {"Abstract": {"Infix": "Right"}}
B, M = "Boolean", "Message"
A_ = ("TV", "a")
BUILTIN = {"||": ([B, B], B, INFIX), "&&": ([B, B], B, INFIX), "=>": ([B, B], B, INFIX), "<=>": ([B, B], B, {"Abstract": {"Infix": "NonAssoc"}}),
           "not": ([B], B, PREFIX), "true": ([], B, PREFIX), "false": ([], B, PREFIX), "empty": ([], M, PREFIX), "zero": ([], M, PREFIX),
           "zeroes": ([M], M, PREFIX), "xor": ([M, M], M, INFIX), "succ": ([M], M, PREFIX), "of_bool": ([B], M, PREFIX), "att": ([M], M, PREFIX),
           "diff": ([M, M], M, PREFIX), "pair": ([M, M], M, PREFIX), "fst": ([M], M, PREFIX), "snd": ([M], M, PREFIX), "fail": ([], M, PREFIX),
           "happens": (["Timestamp"], B, PREFIX), "pred": (["Timestamp"], "Timestamp", PREFIX),
           "witness": ([], A_, PREFIX), "len": ([A_], M, PREFIX), "if": ([B, A_, A_], A_, PREFIX),
           "=": ([A_, A_], B, {"Abstract": {"Infix": "Left"}}), "<>": ([A_, A_], B, {"Abstract": {"Infix": "Left"}}),
           "<=": ([A_, A_], B, {"Abstract": {"Infix": "Left"}}), "<": ([A_, A_], B, {"Abstract": {"Infix": "Left"}}),
           ">": ([A_, A_], B, {"Abstract": {"Infix": "Left"}}), ">=": ([A_, A_], B, {"Abstract": {"Infix": "Left"}}),
           "qatt": ([("*", ["Timestamp", M, ("T", "quantum_message")])], ("*", [M, ("T", "quantum_message")]), PREFIX)}


class Dump:
    def __init__(self):
        self.types = {"quantum_message": []}        # name -> properties
        self.names, self.ops, self.cells = {}, {}, {}   # n -> [types]; f -> (types, type, def, associated); c -> [(x, ty)], init
        self.globals = {}                           # g -> dict(inputs, indices, ts, body, shape)
        self.actions = []                           # dict(name, path, cond, updates, output, globals)
        self.variables, self.hyps, self.query = [], [], None
        self.systems = ["left"]
        self.pragmas, self.sizes = [], {}
        self.tag = 10

    # ------------------------------------------------------------------ json
    def path(self, x):
        return {"npath": {"npath": [], "id": 0}, "symb": x, "id": 7}

    def isymb(self, x, ty=M):
        return {"s_symb": self.path(x), "s_typ": self.jty(ty)}

    def jty(self, t):
        if isinstance(t, str):
            return t
        if t[0] == "T":
            return {"TBase": self.path(t[1])}
        if t[0] == "TV":
            return {"TVar": {"name": t[1], "tag": 3}}
        return {"Tuple": {"elements": [self.jty(x) for x in t[1]]}}

    def jvar(self, v):
        return {"id": {"name": v[0], "tag": v[2] if len(v) > 2 else self.newtag()}, "ty": self.jty(v[1])}

    def newtag(self):
        self.tag += 1
        return self.tag

    def j(self, t, env):
        """env: tags of the variables in scope"""
        k = t[0]
        J = lambda x: self.j(x, env)
        fun = lambda f: {"Fun": {"symb": self.path(f)}}
        if k == "var":
            return {"Var": {"id": {"name": t[1], "tag": env.get(t[1], 1)}, "ty": self.jty(t[2])}}
        if k == "name":
            a = [J(x) for x in t[2]]
            return {"Name": {"symb": self.isymb(t[1]), "args": [{"Tuple": {"elements": a}}] if len(a) > 1 else a}}
        if k == "op":
            f, a = t[1], [J(x) for x in t[2]]
            if not a:
                return fun(f)
            ty = self.ops[f][0] if f in self.ops else BUILTIN[f][0]
            if len(ty) == 1 and ty[0][0] == "*":
                a = [{"Tuple": {"elements": a}}]
            return {"App": {"f": fun(f), "args": a}}
        if k == "tuple":
            return {"Tuple": {"elements": [J(x) for x in t[1]]}}
        if k == "proj":
            return {"Proj": {"id": t[1], "body": J(t[2])}}
        if k in ("find", "quant"):
            vs = t[1] if k == "find" else t[2]
            e2 = dict(env)
            for x, _ in vs:
                e2[x] = self.newtag()
            jv = [{"Var": {"id": {"name": x, "tag": e2[x]}, "ty": self.jty(ty)}} for x, ty in vs]
            if k == "find":
                return {"Find": {"vars": jv, "condition": self.j(t[2], e2), "success": self.j(t[3], e2), "faillure": J(t[4])}}
            return {"Quant": {"quantificator": t[1], "vars": jv, "body": self.j(t[3], e2)}}
        if k == "macro":
            return {"Macro": {"symb": self.isymb(t[1], B if t[1] in ("cond", "exec") else M), "args": [], "timestamp": J(t[2])}}
        if k in ("cell", "glob"):
            return {"Macro": {"symb": self.isymb(t[1]), "args": [J(x) for x in t[2]], "timestamp": J(t[3])}}
        if k == "action":
            return {"Action": {"symb": self.path(t[1]), "args": [J(x) for x in t[2]]}}
        if k == "diff":
            return {"Diff": {"terms": [{"proj": s, "term": J(x)} for s, x in zip(self.systems, t[1])]}}
        raise ValueError(t)

    def json(self):
        fty = lambda a, o: {"vars": [{"name": "a", "tag": 3}] if "TV" in str([a, o]) else [], "args": [self.jty(x) for x in a], "out": self.jty(o)}
        ent = lambda n, d: {"symb": self.path(n), "data": d}
        acts = []
        for a in self.actions:
            env = {}
            P = []
            for (p, pv), (s, sv) in a["path"]:
                for x, _ in pv + sv:
                    env[x] = self.newtag()
                jv = lambda vs: [self.jvar((x, ty, env[x])) for x, ty in vs]
                P.append({"par_choice": [p, jv(pv)], "sum_choice": [s, jv(sv)]})
            idx = [self.jvar((x, ty, env[x])) for x, ty in self.indices(a)]
            up = []
            for c, args, body in a["updates"]:
                e2 = dict(env)
                for x in args:
                    if x[0] == "var" and x[1] not in e2:
                        e2[x[1]] = self.newtag()
                up.append({"symb": self.path(c), "args": [self.j(x, e2) for x in args], "body": self.j(body, e2)})
            acts.append({"name": self.path(a["name"]), "action": P, "input": self.path("c"), "indices": idx,
                         "condition": {"vars": [], "term": self.j(a["cond"], env)}, "updates": up,
                         "output": {"channel": self.path("c"), "term": self.j(a["output"], env)}, "globals": [self.path(g) for g in a["globals"]]})
        ops = [ent(f, {"type": fty(a, o), "def": {"abstract_def": d, "associated_fun": []}}) for f, (a, o, d) in BUILTIN.items()]
        for f, (a, o, d, ass) in self.ops.items():
            ops.append(ent(f, {"type": fty(a, o), "def": {"abstract_def": d, "associated_fun": [self.path(x) for x in ass]}}))
        wit = {"Fun": {"symb": self.path("witness")}}
        tau = {"id": {"name": "\u03c4", "tag": 2}, "ty": "Timestamp"}
        gen = lambda n: {"General": {"name": self.path(n), "default": wit, "tinit": wit, "body": {"var": tau, "body": wit}, "rec_ty": M, "ty": M}}
        macros = [ent("output", {"General": "Output"}), ent("cond", {"General": "Cond"})] + [ent(n, gen(n)) for n in ("input", "exec", "frame")]
        for c, (vs, ty, init) in self.cells.items():
            env = {x: self.newtag() for x, _ in vs}
            macros.append(ent(c, {"State": {"arity": len(vs), "type": self.jty(ty), "init": {"vars": [self.jvar((x, s, env[x])) for x, s in vs], "init": self.j(init, env)}}}))
        for g, d in self.globals.items():
            env = {x: d["tags"].setdefault(x, self.newtag()) for x, _ in d["inputs"] + d["indices"]}
            env["\u03c4"] = 2
            macros.append(ent(g, {"Global": {"arity": len(d["indices"]), "type": self.jty(d["ty"]), "data": {
                "action": {"kind": "Strict", "shape": [{"par_choice": [p, len(pv)], "sum_choice": [s, len(sv)]} for (p, pv), (s, sv) in d["shape"]]},
                "inputs": [self.jvar((x, M, env[x])) for x, _ in d["inputs"]], "indices": [self.jvar((x, s, env[x])) for x, s in d["indices"]],
                "ts": tau, "ty": self.jty(d["ty"]), "body": self.j(d["body"], env)}}}))
        env = {x: self.newtag() for x, _ in self.variables}
        ctx = {"query": self.j(self.query, env), "hypotheses": [self.j(h, env) for h in self.hyps], "variables": [self.jvar((x, ty, env[x])) for x, ty in self.variables],
               "actions": acts, "names": [ent(n, fty([("*", a)] if len(a) > 1 else a, M)) for n, a in self.names.items()],
               "operators": ops, "macros": macros, "types": [ent(t, d) for t, d in self.types.items()]}
        # x~1 is another variable of name x
        return re.sub(r'"(\w+)~\d"', r'"\1"', json.dumps({"parameters": {"num_retry": 5, "timeout": 1.0}, "context": ctx}))

    @staticmethod
    def indices(a):
        return [v for (_, pv), (_, sv) in a["path"] for v in pv + sv]

    # ------------------------------------------------------------- meaning
    def ty(self, t):
        if t == "Index":
            return "index"
        if t == "Timestamp":
            return "Step"
        if t == "Boolean":
            return "Bool"
        if isinstance(t, tuple) and t[0] == "T":
            d = self.types[t[1]]
            if "Enum" in d or ("Finite" in d and "Fixed" in d):
                return "sort_" + t[1]
        return M

    def bs(self, vs):
        return ", ".join("var_%s: %s" % (x, self.ty(t)) for x, t in vs)

    def s(self, t, i):
        k = t[0]
        S = lambda x: self.s(x, i)
        ap = lambda f, a: "%s(%s)" % (f, ", ".join(map(S, a))) if a else f
        if k == "var":
            return "var_" + t[1]
        if k == "name":
            return ap("name_" + t[1], t[2])
        if k == "op":
            f, a = t[1], t[2]
            if f in ("&&", "||", "=>", "<=>"):
                return "(%s %s %s)" % (S(a[0]), f, S(a[1]))
            if f in ("=", "<>"):
                return "(%s %s %s)" % (S(a[0]), {"=": "==", "<>": "!="}[f], S(a[1]))
            if f in ("<", "<="):
                return ap({"<": "lt", "<=": "leq"}[f], a)
            if f == "if":
                return "if %s { %s } else { %s }" % tuple(map(S, a))
            if f in self.ops:
                if self.ops[f][2] == "CheckSign":
                    return "fun_%s(%s, %s, %s)" % (f, S(a[1]), S(a[0]), S(a[2]))
                return ap("fun_" + f, a)
            return ap(f if f in ("not", "true", "false", "empty", "pair", "fst", "snd", "fail", "happens", "pred") else "fun_" + f, a)
        if k == "tuple":
            out = "empty"
            for x in reversed(t[1]):
                out = "pair(%s, %s)" % (S(x), out)
            return out
        if k == "proj":
            x = S(t[2])
            for _ in range(t[1] - 1):
                x = "snd(%s)" % x
            return "fst(%s)" % x
        if k == "find":
            return "try find (%s) such that { %s } then { %s } else { %s }" % (self.bs(t[1]), S(t[2]), S(t[3]), S(t[4]))
        if k == "quant":
            return "%s (%s) { %s }" % (t[1].lower(), self.bs(t[2]), S(t[3]))
        if k == "macro":
            return "%s(%s)" % ({"output": "msg"}.get(t[1], t[1]), S(t[2]))
        if k == "cell":
            return "fun_%s(%s)" % (t[1], ", ".join(map(S, list(t[2]) + [t[3]])))
        if k == "glob":
            return S(t[4])
        if k == "action":
            return ap("init" if t[1] == "init" else "step_" + t[1], t[2])
        if k == "diff":
            return S(t[1][i])
        raise ValueError(t)

    def orders(self):
        out = []
        acts = [a for a in self.actions if a["name"] != "init"]
        for x, a in enumerate(acts):
            for b in acts[x + 1:]:
                p, q = sorted((a, b), key=lambda z: len(z["path"]))
                n = 0
                while n < len(p["path"]) and p["path"][n] == q["path"][n]:
                    n += 1
                f = lambda z, names: "step_%s%s" % (z["name"], "(%s)" % ", ".join(names) if names else "")
                vs = lambda z: ["var_" + v for v, _ in self.indices(z)]
                if n == len(p["path"]):
                    out.append("order forall (%s) { %s < %s }" % (self.bs(self.indices(q)), f(p, vs(p)), f(q, vs(q))))
                elif p["path"][n][0] == q["path"][n][0] and p["path"][n][1][0] != q["path"][n][1][0]:
                    shared = sum(len(pv) + len(sv) for (_, pv), (_, sv) in p["path"][:n]) + len(p["path"][n][0][1])
                    pn = vs(p)
                    qn = pn[:shared] + ["%s2" % v for v in vs(q)[shared:]]
                    bd = ["%s: %s" % (v, self.ty(t)) for v, (_, t) in zip(pn, self.indices(p))] + ["%s: %s" % (v, self.ty(t)) for v, (_, t) in list(zip(qn, self.indices(q)))[shared:]]
                    out.append("order forall (%s) { %s <> %s }" % (", ".join(bd), f(p, pn), f(q, qn)))
        return out

    def spec(self, i):
        """The i-th system as a protocol of the specification."""
        L = list(self.pragmas) + ["/*@ proj fst pair 1 */ /*@ proj snd pair 2 */", "type index"]
        L += ["type sort_" + t for t in self.types if self.ty(("T", t)) != M]
        sig = lambda a: "(%s)" % ", ".join(map(self.ty, a)) if a else ""
        flat = lambda a: a[0][1] if len(a) == 1 and a[0][0] == "*" else a
        L += ["fun name_%s%s: Name" % (n, sig(a)) for n, a in self.names.items()]
        L += ["fun pair(Message, Message): Message", "fun fst(Message): Message", "fun snd(Message): Message", "fun fail: Message"]
        for f, (a, o, _) in BUILTIN.items():
            if f in ("zero", "zeroes", "xor", "succ", "of_bool", "att"):
                L.append("fun fun_%s%s: Message" % (f, sig(a)))
        for f, (a, o, d, ass) in self.ops.items():
            L.append("fun fun_%s%s: %s" % (f, sig(flat(a)), self.ty(o)))
            if d == "Hash":
                L.append("fun verify_fun_%s(Message, Message, Message): Bool" % f)
        L += ["cell fun_%s%s: Message" % (c, sig([t for _, t in vs])) for c, (vs, _, _) in self.cells.items()]
        for a in self.actions:
            idx = self.indices(a)
            asg = []
            for c, args, body in a["updates"]:
                fv = []
                for x in args:
                    if (x[1], x[2]) not in idx + fv:
                        fv.append((x[1], x[2]))
                asg.append(("(%s) " % self.bs(fv) if fv else "") + "fun_%s%s <- %s" % (c, "(%s)" % ", ".join(self.s(x, i) for x in args) if args else "", self.s(body, i)))
            L.append("step %s%s { %s } { %s }%s" % ("init" if a["name"] == "init" else "step_" + a["name"], "(%s)" % self.bs(idx) if idx else "",
                                                   self.s(a["cond"], i), self.s(a["output"], i), " { %s }" % ", ".join(asg) if asg else ""))
        L += self.orders()
        L += ["assert forall (var_x: Message, var_y: Message) { (fst(pair(var_x, var_y)) == var_x) }",
              "assert forall (var_x: Message, var_y: Message) { (snd(pair(var_x, var_y)) == var_y) }"]
        q = self.s(self.query, i)
        if self.hyps:
            q = "((%s) => %s)" % (" && ".join(["true"] + [self.s(h, i) for h in self.hyps]), q)
        L.append("query " + ("forall (%s) { %s }" % (self.bs(self.variables), q) if self.variables else q))
        L += ["assert-crypto nonce;", "assert-crypto memory_cell;", "assert-crypto unfolding;"]
        for f, (a, o, d, ass) in self.ops.items():
            if d == "Hash":
                L.append("assert-crypto euf-cma fun_%s verify_fun_%s [hmac];" % (f, f))
            if d == "SEnc":
                L.append("assert-crypto int-ctxt fun_%s fun_%s fail;" % (f, ass[0]))
            if d == "CheckSign":
                L.append("assert-crypto euf-cma fun_%s fun_%s fun_%s;" % (ass[0], f, ass[1]))
        return "\n".join(L).replace("~", "T") + "\n"


# ------------------------------------------------------------------ generator
op = lambda f, *a: ("op", f, list(a))
TRUE, EMPTY = op("true"), op("empty")


class G:
    """A seeded process: agents in parallel, each a tree of actions with choices, lets, updates and diffs."""

    def __init__(self, seed, diff=False):
        self.r = r = random.Random("squirrel/%s" % seed)
        self.d = d = Dump()
        self.sorts = ["Index"]
        if self.p(.4):
            d.types["Sess"] = r.choice([["Finite", "Fixed"], ["Fixed", "Finite", "WellFounded"], ["Enum"]])
            self.sorts.append(("T", "Sess"))
        if self.p(.5):
            d.types["Big"] = r.choice([["Large"], ["Large", "Fixed"], ["WellFounded", "Finite"]])
        self.big = ("T", "Big") if "Big" in d.types else M
        for i in range(r.randint(1, 3)):
            d.names["abc"[i] + "n"] = [r.choice(self.sorts) for _ in range(r.choice([0, 1, 1, 2]))]
        d.ops["ok"] = ([], r.choice([M, self.big]), PREFIX, [])
        d.ops["ko"] = ([], M, PREFIX, [])
        d.ops["h"] = ([r.choice([M, self.big])], M, PREFIX, [])
        d.ops["g"] = r.choice([([M, M], M, PREFIX, []), ([("*", [M, self.big])], M, PREFIX, []), ([("*", [self.sorts[-1], M])], self.big, PREFIX, []), ([M, ("*", [M, self.big])], M, PREFIX, [])])
        if self.p(.4):
            d.ops["eqp"] = ([M, M], B, PREFIX, [])
            d.pragmas.append("/*@ eqpred fun_eqp */")
        self.diff = diff
        if diff:
            d.systems = r.choice([["left", "right"], ["right", "left"]])
        self.insts, self.nact, self.ng = 0, 0, 0

    def p(self, x):
        return self.r.random() < x

    def idx(self, ty, ctx):
        c = [v for v, s in ctx.items() if s == ty]
        return ("var", self.r.choice(c), ty) if c else None

    def idxs(self, tys, ctx):
        out = [self.idx(t, ctx) for t in tys]
        return None if None in out else out

    def name(self, ctx):
        for n in self.r.sample(list(self.d.names), len(self.d.names)):
            a = self.idxs(self.d.names[n], ctx)
            if a is not None:
                return ("name", n, a)
        return op("ko")

    def binders(self, ctx, n, here):
        # the action at hand keeps its meaning
        own = [a[1] for a in here["act"][2]] if here and here.get("act") else []
        vs, c2 = [], dict(ctx)
        for _ in range(n):
            x = self.r.choice([v for v in "xyzuij" if v not in [w for w, _ in vs] + own])
            t = self.r.choice(self.sorts)
            vs.append((x, t))
            c2.pop(x, None)
            c2[x] = t
        return vs, c2

    # here: dict(act, lets): the action this is part of, and the macros that can be used
    def msg(self, n, ctx, here):
        r, d = self.r, self.d
        m = lambda c=ctx: self.msg(n - 1, c, here)
        mv = [("var", v, M) for v, s in ctx.items() if s == M]
        if n <= 0 or self.p(.2):
            c = [op(r.choice(["ok", "ko"])), self.name(ctx), self.name(ctx)] + mv
            if here and here.get("act"):
                c += [("macro", "input", here["act"])] * 2
            if here and d.cells:
                x = self.cell(ctx, here)
                c += [x, x] if x else []
            return r.choice(c)
        k = r.choice(["pair", "tuple", "proj", "projof", "h", "g", "fst", "snd", "if", "find", "glob", "diff", "hash"])
        if k == "pair":
            return op("pair", m(), m())
        if k == "tuple":
            return ("tuple", [m() for _ in range(r.choice([2, 2, 3]))])
        if k == "proj":
            w = r.choice([2, 3])
            return ("proj", r.randint(1, w), ("tuple", [m() for _ in range(w)]))
        if k == "projof":
            return ("proj", r.randint(1, 2), m())
        if k in ("h", "fst", "snd"):
            return op(k, m())
        if k == "g":
            ty = d.ops["g"][0]
            if ty[-1][0] == "*" and len(ty) == 2:
                return op("g", m(), ("tuple", [m(), m()]))
            ty = ty[0][1] if ty[0][0] == "*" else ty
            if ty[0] in self.sorts:
                x = self.idx(ty[0], ctx)
                return op("g", x, m()) if x else op("h", m())
            return op("g", m(), m())
        if k == "if":
            return op("if", self.cond(n - 1, ctx, here), m(), m())
        if k == "find":
            vs, c2 = self.binders(ctx, r.randint(1, 2), here)
            return ("find", vs, self.cond(n - 1, c2, here), m(c2), m())
        if k == "glob" and here and here.get("lets"):
            ls = [l for l in here["lets"] if l[0]["ty"] == M]
            if ls:
                return self.use(r.choice(ls), here)
        if k == "diff" and self.diff:
            return ("diff", [m(), m()])
        if k == "hash" and "mac" in d.ops:
            key = self.idxs(d.names["hk"], ctx)
            if key is not None:
                return op("mac", m(), ("name", "hk", key))
        return op("pair", m(), m())

    def use(self, l, here):
        g, name = l
        args = [("var", x, t) for x, t in g["indices"]]
        return ("glob", name, args, here["ts"], g["meaning"](here))

    def cell(self, ctx, here):
        c = self.r.choice(list(self.d.cells))
        a = self.idxs([t for _, t in self.d.cells[c][0]], ctx)
        if a is None or not here.get("act"):
            return None
        return ("cell", c, a, op("pred", here["act"]))

    def cond(self, n, ctx, here):
        r, d = self.r, self.d
        m = lambda c=ctx: self.msg(n - 1, c, here)
        c = lambda cc=ctx: self.cond(n - 1, cc, here)
        k = r.choice(["=", "=", "<>", "eqp"] if n <= 0 else ["=", "=", "<>", "&&", "||", "=>", "<=>", "not", "Exists", "ForAll", "glob", "eqp", "const", "diff", "idx"])
        if k in ("=", "<>"):
            return op(k, m(), m())
        if k in ("&&", "||", "=>", "<=>"):
            return op(k, c(), c())
        if k == "not":
            return op("not", c())
        if k in ("Exists", "ForAll"):
            vs, c2 = self.binders(ctx, r.randint(1, 2), here)
            return ("quant", k, vs, c(c2))
        if k == "glob" and here and here.get("lets"):
            ls = [l for l in here["lets"] if l[0]["ty"] == B]
            if ls:
                return self.use(r.choice(ls), here)
        if k == "eqp" and "eqp" in d.ops:
            return op("eqp", m(), m())
        if k == "diff" and self.diff:
            return ("diff", [c(), c()])
        if k == "const":
            return op(r.choice(["true", "false"]))
        return op("=", m(), m())

    # ------------------------------------------------------------- process
    def lets(self, path, ctx, inputs, outer):
        """Global macros declared after the last input of the actions on `path' (which lacks the choice made next)."""
        r, d = self.r, self.d
        out = []
        for _ in range(r.choice([0, 0, 1, 1, 2]) if self.use_lets else 0):
            name = "G%d" % self.ng
            self.ng += 1
            ty = r.choice([M, M, B])
            dummy = [self.p(.25) for _ in inputs]
            if all(dummy):
                dummy[-1] = False
            body_ctx = dict(ctx)
            for x, dm in zip(inputs, dummy):
                if not dm:
                    body_ctx[x] = M
            tau = ("var", "\u03c4", "Timestamp")
            h = dict(ts=tau, act=None, lets=[(g, n) for g, n in outer + out], body=True)
            body = self.msg(2, body_ctx, h) if ty == M else self.cond(2, body_ctx, h)
            g = dict(inputs=[("$dummy" if dm else x, M) for x, dm in zip(inputs, dummy)][::-1], indices=[(x, t) for x, t in ctx.items()], ty=ty, body=body, shape=path, tags={})

            def meaning(here, body=body, tau=tau):
                if here.get("body"):
                    return body         # within another body: its meaning depends on where that one is used
                sub = {x: ("macro", "input", a) for x, a in zip(self.inputs_of(here), here["along"])}
                sub["\u03c4"] = here["ts"]
                return subst(body, sub)
            g["meaning"] = meaning
            d.globals[name] = g
            out.append((g, name))
        return out

    def inputs_of(self, here):
        return here["inputs"]

    def action(self, name, path, ctx, here, c):
        r, d = self.r, self.d
        up = []
        for cl, (vs, _, _) in d.cells.items():
            if self.p(.5):
                if vs and self.p(.3):
                    fv = [("w" if k == 0 else "ww", t) for k, (_, t) in enumerate(vs)]
                    up.append((cl, [("var", x, t) for x, t in fv], self.msg(1, dict(ctx, **dict(fv)), here)))
                else:
                    a = self.idxs([t for _, t in vs], ctx)
                    if a is not None:
                        up.append((cl, a, self.msg(2, ctx, here)))
        d.actions.append(dict(name=name, path=path, cond=c, updates=up, output=self.msg(2, ctx, here), globals=[n for _, n in here["own"]]))

    def node(self, prefix, ctx, par, pv, inputs, along, outer, depth):
        r, d = self.r, self.d
        ctx = dict(ctx, **dict(pv))
        x = "m%d" % len(inputs) if False else "m" + "abcdef"[len(inputs)]
        inputs = inputs + [x]
        own = self.lets(prefix, ctx, inputs, outer)
        usable = outer + own
        shape = r.choice(["one", "one", "if", "if", "find"])
        branches = [(0, [])] if shape == "one" else [(0, []), (1, [])]
        if shape == "find":
            t = r.choice(self.sorts)
            v = r.choice([v for v in "klp" if v not in ctx])
            branches[0] = (0, [(v, t)])
        if self.insts + sum(2 ** (len(ctx) + len(sv)) for _, sv in branches) > 7:
            branches = [(0, [])]
            shape = "one"
        raw = None
        for s, sv in branches:
            c2 = dict(ctx, **dict(sv))
            name = "ABCDEFGH"[self.nact] + r.choice(["", "", "1", "go"])
            self.nact += 1
            self.insts += 2 ** len(c2)
            path = prefix + [((par, list(pv)), (s, list(sv)))]
            act = ("action", name, [("var", y, t) for y, t in c2.items()])
            here = dict(act=act, ts=act, lets=usable, own=own, inputs=inputs, along=along + [act])
            if shape == "one":
                c = self.cond(2, c2, here) if self.p(.6) else TRUE
            elif s == 0:
                self.r2 = r.getstate()
                c = self.cond(2, c2, here)
                raw = (c, name, sv)
            else:
                # the other branch: the same test, seen from this action
                c = again(raw[0], raw[1], act, c2)
                if raw[2]:
                    c = ("quant", "Exists", raw[2], c)
                c = op("not", c)
            self.action(name, path, c2, here, c)
            if depth > 0 and self.p(.5) and self.insts + 2 ** len(c2) <= 6 and self.nact < 6:
                for k in range(1 if self.p(.8) else 2):
                    nv = []
                    if self.p(.3) and self.insts + 2 ** (len(c2) + 1) <= 6:
                        v = r.choice([v for v in "klpq" if v not in c2])
                        nv = [(v, r.choice(self.sorts))]
                    if self.insts + 2 ** (len(c2) + len(nv)) <= 6 and self.nact < 6:
                        self.node(path, c2, k, nv, inputs, along + [act], usable, depth - 1)

    def form(self, n, ctx):
        """a formula over steps"""
        r, d = self.r, self.d

        def ts():
            tv = [("var", v, t) for v, t in ctx.items() if t == "Timestamp"]
            c = list(tv)
            for a in d.actions:
                x = self.idxs([t for _, t in d.indices(a)], ctx) if a["name"] != "init" else []
                if x is not None:
                    c.append(("action", a["name"], x))
            t = r.choice(c)
            return op("pred", t) if self.p(.15) else t
        f = lambda c=ctx: self.form(n - 1, c)
        if n <= 0 or self.p(.1):
            k = r.choice(["happens", "<", "<=", "cond", "exec", "=t", "=m", "=m", "=i", "cell", "<>"])
            if k == "happens":
                return op(k, ts())
            if k in ("<", "<="):
                return op(k, ts(), ts())
            if k in ("cond", "exec"):
                return ("macro", k, ts())
            if k == "=t":
                return op(r.choice(["=", "<>"]), ts(), ts())
            if k == "=i":
                t = r.choice(self.sorts)
                x, y = self.idx(t, ctx), self.idx(t, ctx)
                if x:
                    return op(r.choice(["=", "<>"]), x, y)

            def m():
                c = [("macro", r.choice(["output", "input"]), ts()), self.msg(1, ctx, None)]
                if d.cells:
                    cl = r.choice(list(d.cells))
                    a = self.idxs([t for _, t in d.cells[cl][0]], ctx)
                    if a is not None:
                        c.append(("cell", cl, a, ts()))
                return r.choice(c)
            if k == "<>":
                return op("<>", m(), m())
            return op("=", m(), m())
        k = r.choice(["&&", "||", "=>", "=>", "not", "ForAll", "Exists", "<=>", "diff"])
        if k == "not":
            return op("not", f())
        if k in ("ForAll", "Exists"):
            vs, c2 = [], dict(ctx)
            for _ in range(r.randint(1, 2)):
                x = r.choice([v for v in "xyztijq" if v not in [w for w, _ in vs]])
                t = r.choice(self.sorts + self.sorts + ["Timestamp"])
                vs.append((x, t))
                c2.pop(x, None)
                c2[x] = t
            return ("quant", k, vs, f(c2))
        if k == "diff" and self.diff:
            return ("diff", [f(), f()])
        return op(k if k != "diff" else "&&", f(), f())

    def build(self):
        r, d = self.r, self.d
        self.use_lets = self.p(.6)
        if self.p(.5):
            for c in ["pc", "qc"][:r.randint(1, 2)]:
                vs = [("wx"[k], r.choice(self.sorts)) for k in range(r.choice([0, 1, 1, 2]))]
                d.cells[c] = (vs, r.choice([M, self.big]), self.msg(1, dict(vs), None))
        if self.p(.35):
            d.names["hk"] = [] if self.p(.5) else [self.sorts[0]]
            d.ops["mac"] = ([("*", [M, self.big])], M, "Hash", [])
            d.pragmas += ["/*@ verify verify_fun_mac fun_mac */ /*@ attack pair(X, fun_mac(X, K)) */"]
        init = dict(name="init", path=[], cond=TRUE, output=EMPTY, globals=[],
                    updates=[(c, [("var", x, t) for x, t in vs], b) for c, (vs, _, b) in d.cells.items()])
        d.actions.append(init)
        for par in range(r.choice([1, 2, 2])):
            n = r.choice([0, 1, 1, 2])
            while 2 ** n + self.insts > 6 and n:
                n -= 1
            pv = [("ij"[k], r.choice(self.sorts)) for k in range(n)]
            if par == 0 or self.insts + 2 ** n <= 6:
                self.node([], {}, par, pv, [], [], [], 2)
        d.variables = [("ijt"[k], t) for k, t in enumerate(r.choice([[], [], ["Index"], ["Index", self.sorts[-1]], ["Index", self.sorts[-1], "Timestamp"]]))]
        ctx = dict(d.variables)
        d.hyps = [self.form(1, ctx) for _ in range(r.choice([0, 0, 1, 2]))]
        d.query = self.form(2, ctx)
        if not uses_diff(d):
            d.systems = d.systems[:1]
        d.pragmas.append("/*@ maxlen %d */" % (3 if self.insts <= 4 else 2))
        return d


def again(t, name, act, ctx):
    """t, written for the action `name', seen from the action `act'"""
    if isinstance(t, tuple):
        if t and t[0] == "action" and t[1] == name:
            return act
        return tuple(again(x, name, act, ctx) for x in t)
    if isinstance(t, list):
        return [again(x, name, act, ctx) for x in t]
    return t


FRESH = [0]


def subst(t, sub):
    """capture-avoiding: every variable bound within is renamed"""
    if isinstance(t, list):
        return [subst(x, sub) for x in t]
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "var":
        x = sub.get(t[1], t)
        return ("var", x, t[2]) if isinstance(x, str) else x
    if t[0] in ("find", "quant"):
        vs = t[1] if t[0] == "find" else t[2]
        s2, nv = dict(sub), []
        for x, ty in vs:
            FRESH[0] += 1
            s2[x] = "%s%d" % (x, FRESH[0])
            nv.append((s2[x], ty))
        if t[0] == "find":
            return ("find", nv, subst(t[2], s2), subst(t[3], s2), subst(t[4], sub))
        return ("quant", t[1], nv, subst(t[3], s2))
    return tuple(subst(x, sub) for x in t)


def uses_diff(d):
    f = lambda t: isinstance(t, (tuple, list)) and (t[:1] == ("diff",) or any(map(f, t)))
    return any(map(f, [d.query] + d.hyps + [a[k] for a in d.actions for k in ("cond", "output", "updates")] + [g["body"] for g in d.globals.values()]))


def generate(seed, scheme=None):
    if scheme == "tags":
        return same_name(seed)
    if scheme == "shapes":
        return shapes(seed)
    if scheme == "exotic":
        return exotic(seed)
    if scheme:
        return from_ptcl(genauth.generate(seed, scheme))
    return G(seed, diff=seed % 3 == 2).build()


def shapes(seed):
    """Processes of which only the structure matters: deep trees of choices and parallel agents."""
    r = random.Random("shapes/%s" % seed)
    d = Dump()
    sorts = ["Index"]
    if r.random() < .3:
        d.types["Sess"] = ["Finite", "Fixed"]
        sorts.append(("T", "Sess"))
    d.actions.append(dict(name="init", path=[], cond=TRUE, output=EMPTY, globals=[], updates=[]))
    st = dict(insts=0, n=0)
    limit = r.choice([6, 8, 10])

    def fits(k):
        return st["insts"] + k <= limit and st["n"] < 8

    def act(path, ctx, cond):
        st["insts"] += 2 ** len(ctx)
        name = "ABCDEFGH"[st["n"]]
        st["n"] += 1
        d.actions.append(dict(name=name, path=path, cond=cond, updates=[], output=EMPTY, globals=[]))

    def fresh(ctx):
        return r.choice([v for v in "ijklpq" if v not in ctx])

    def node(prefix, ctx, par, depth):
        pv = []
        if r.random() < (.5 if depth == 3 else .25) and fits(2 ** (len(ctx) + 1)):
            pv = [(fresh(ctx), r.choice(sorts))]
        ctx = dict(ctx, **dict(pv))
        shape = r.choice(["one", "if", "if", "find", "find"])
        br = [(0, [])]
        if shape == "find":
            br = [(0, [(fresh(ctx), r.choice(sorts))])]
        if shape != "one":
            br.append((1, []))
        if not fits(sum(2 ** (len(ctx) + len(sv)) for _, sv in br)) or st["n"] + len(br) > 8:
            br = [(0, [])]
            if not fits(2 ** len(ctx)):
                return
        todo = []
        for s, sv in br:
            c2 = dict(ctx, **dict(sv))
            path = prefix + [((par, list(pv)), (s, list(sv)))]
            act(path, c2, TRUE if s == 0 else op("not", TRUE))
            todo.append((path, c2))
        r.shuffle(todo)
        for path, c2 in todo:
            if depth > 0 and r.random() < .75:
                for k in range(r.choice([1, 1, 2])):
                    node(path, c2, k, depth - 1)

    for k in range(r.choice([1, 1, 2, 3])):
        node([], {}, k, 3)
    d.query = ("quant", "ForAll", [("t", "Timestamp")], op("happens", ("var", "t", "Timestamp")))
    d.pragmas.append("/*@ maxlen %d */" % (5 if st["insts"] <= 6 else 4))
    return d


def small(cond=TRUE):
    d = Dump()
    d.names["n"] = ["Index"]
    d.ops["h"] = ([M], M, PREFIX, [])
    x = ("var", "i", "Index")
    A = ("action", "A", [x])
    d.actions.append(dict(name="init", path=[], cond=TRUE, output=EMPTY, globals=[], updates=[]))
    d.actions.append(dict(name="A", path=[((0, [("i", "Index")]), (0, []))], cond=cond, output=("macro", "input", A), globals=[], updates=[]))
    d.query = ("quant", "ForAll", [("j", "Index")], op("happens", ("action", "A", [("var", "j", "Index")])))
    d.pragmas.append("/*@ maxlen 3 */")
    return d, x, A


def same_name(k):
    """Distinct variables of the same name (Squirrel tells them apart by their tags)."""
    d, x, A = small()
    y = ("var", "i~1", "Index")
    if k == 0:
        d.query = ("quant", "ForAll", [("i", "Index")], ("quant", "Exists", [("i~1", "Index")], op("<>", x, y)))
    if k == 1:
        d.actions[1]["output"] = ("find", [("i~1", "Index")], op("<>", ("name", "n", [x]), ("name", "n", [y])), ("name", "n", [x]), op("h", ("name", "n", [x])))
    return d


NAMES = ["a_b", "x'", ">>", "&?", "caf_", "my-op", "q~~", "a.b", "if_", "Step", "as", "let", "assert", "Message", "Int", "select"]


def exotic(k):
    """Names which aren't symbols of any prover."""
    r = random.Random("exotic/%s" % k)
    d, x, A = small()
    n = r.sample(NAMES, 6)
    m, i = ("name", n[0], [x]), "i"
    d.names[n[0]] = ["Index"]
    d.ops[n[1]] = ([M, M], M, PREFIX, [])
    d.ops[n[2]] = ([M], B, PREFIX, [])
    d.cells[n[3]] = ([], M, op("empty"))
    d.types[n[5]] = r.choice([["Finite", "Fixed"], ["Large"]])
    d.names["kk"] = [("T", n[5])] if "Fixed" in d.types[n[5]] else ["Index"]
    d.actions[0]["updates"] = [(n[3], [], op("empty"))]
    a = ("action", n[4], [x])
    d.actions.append(dict(name=n[4], path=[((1, [("i", "Index")]), (0, []))], cond=op(n[2], ("macro", "input", a)), output=op(n[1], m, ("cell", n[3], [], op("pred", a))),
                          globals=[], updates=[(n[3], [], m)]))
    v = r.choice(NAMES)
    d.query = ("quant", "ForAll", [(v, "Index")], op("happens", ("action", "A", [("var", v, "Index")])))
    return d


def from_ptcl(text):
    """A dump of the processes of a protocol made by genauth: each step an agent of its own."""
    p = ptcl.parse(text)
    e = ptcl.Expander(p)
    d = Dump()
    pub = {"checksign": "CheckSign", "sign": "Sign", "pk": "PublicKey", "hash": "Hash", "enc": "SEnc", "dec": "SDec"}
    ass = {"checksign": ["sign", "pk"], "enc": ["dec"], "dec": ["enc"]}
    sq = {"index": "Index", "Message": M, "Bool": B, "Step": "Timestamp"}
    var = lambda x: x.replace("_", "")
    vs_ = lambda vs: [(var(x), sq[s]) for x, s in vs]
    for f, (a, o) in p.funs.items():
        a = [sq[x] for x in a]
        if o == "Name":
            d.names[f] = a
        elif f in pub:
            d.ops[f] = ([("*", a)] if len(a) > 1 else a, sq[o], pub[f], ass.get(f, []))
        elif f not in ("tpl", "fst", "snd", "fail", "verify"):
            d.ops[f] = (a, sq[o], PREFIX, [])

    def c(t):
        k = t[0]
        if k == "var":
            return ("var", var(t[1]), sq[t[2]])
        if k == "infix":
            o = {"==": "=", "!=": "<>"}.get(t[1], t[1])
            out = c(t[2][-1])
            for x in reversed(t[2][:-1]):
                out = op(o, c(x), out)
            return out
        if k == "if":
            return op("if", *map(c, t[1:]))
        if k == "find":
            return ("find", vs_(t[1]), c(t[2]), c(t[3]), c(t[4]))
        if k in ("forall", "exists"):
            return ("quant", {"forall": "ForAll", "exists": "Exists"}[k], vs_(t[1]), c(t[2]))
        f, a = t[1], [c(x) for x in t[2]]
        if f in p.steps or f == "init":
            return ("action", f, a)
        if f in d.names:
            return ("name", f, a)
        if f in p.cells:
            return ("cell", f, a[:-1], a[-1])
        if f in ("input", "exec", "cond", "msg"):
            return ("macro", "output" if f == "msg" else f, a[0])
        f = {"tpl": "pair", "lt": "<", "leq": "<="}.get(f, f)
        if f == "checksign":
            a = [a[1], a[0], a[2]]
        return op(f, *a)

    init = dict((x[1], x) for x in e.step("init")[3]) if "init" in p.steps else {}
    for n, (a, _) in p.cells.items():
        vs, v = [("w%d" % i, sq[x]) for i, x in enumerate(a)], ("name", "m", [])
        if n in init:
            vs, v = vs_(init[n][0]), c(init[n][3])
        d.cells[n] = (vs, M, v)
    d.actions.append(dict(name="init", path=[], cond=TRUE, output=EMPTY, globals=[],
                          updates=[(n, [("var", x, t) for x, t in vs], b) for n, (vs, _, b) in d.cells.items()]))
    for i, n in enumerate(x for x in p.steps if x != "init"):
        vs, cond, msg, asg = e.step(n)
        d.actions.append(dict(name=n, path=[((i, vs_(vs)), (0, []))], cond=c(cond), output=c(msg), globals=[],
                              updates=[(y[1], [c(x) for x in y[2]], c(y[3])) for y in asg]))
    d.query = c(e.ex(p.query, {}))
    ren = lambda w: "pair" if w == "tpl" else "verify_fun_hash" if w == "verify" else "fun_" + w if w in pub else w
    for g in p.pragmas:
        if g[0] != "proj" and g[0] != "opt":
            d.pragmas.append("/*@ %s %s */" % (g[0], re.sub(r"\w+", lambda m: ren(m.group()), " ".join(g[1:]))))
        elif g[0] == "opt":
            d.pragmas.append("/*@ %s */" % " ".join(g))
    return d


if __name__ == "__main__":
    import sys
    d = generate(int(sys.argv[1]), *sys.argv[3:])
    open(sys.argv[2], "w").write(d.json())
    for i in range(len(d.systems)):
        print(d.spec(i))
