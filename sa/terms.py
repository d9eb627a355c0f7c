"""Values as terms: what the outputs of a loop-free function are, written as expressions over its inputs.

An expression of the source is turned into a term (value numbering over the structured syntax tree): locals are replaced
by the term assigned last, helpers by their bodies, calls into other libraries by opaque outputs ('ext', call, role, inputs).
Branches on a known fact (a flag, a comparison the caller fixes) are followed by the assignment of facts given; the
evaluation reports which outcome that gives: the terms returned, or the type of the exception thrown."""
import math
from .core import CALLS, call_args, call_obj, unwrap
from .feeds import last

AXES = {0: "x", 1: "y", 2: "z"}


class Unknown(Exception):
    pass


class Thrown(Exception):
    def __init__(self, t):
        self.t = t


class Returned(Exception):
    def __init__(self, v):
        self.v = v


class Need(Exception):
    """the truth of an atom is needed"""
    def __init__(self, a):
        self.a = a


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "num":
        return f"{t[1]:g}"
    if t[0] == "in":
        return t[1]
    if t[0] == "op":
        return "(" + f" {t[1]} ".join(show(x) for x in t[2:]) + ")" if len(t) > 3 else f"{t[1]}{show(t[2])}"
    if t[0] == "fn":
        return f"{t[1]}({', '.join(show(x) for x in t[2:])})"
    if t[0] == "ext":
        return f"{t[1]}[{t[2]}]"
    if t[0] == "fields":
        return "{" + ", ".join(f"{k}: {show(v)}" for k, v in t[1]) + "}"
    return str(t)


def _walk(f, n):
    n = f.node(n)
    yield n
    for x in n.get("c", ()):
        if x is not None:
            yield from _walk(f, x)


class Eval:
    def __init__(self, P, ext, fields, facts, fault=None, base_of=None, atom=None):
        """ext: qualified name -> [(role, 'i'|'o')]; fields(type) -> list of member names for aggregates
        facts: {atom key: bool}; fault: index of the external call that fails"""
        self.P, self.ext, self.fields, self.facts, self.fault = P, ext, fields, facts, fault
        self.count = 0
        self.faulted = None
        self.calls = []
        self.base_of = base_of or (lambda a, b: a == b)
        self.atom = atom or (lambda t: t)
        self.depth = 0

    # ------------------------------------------------ running a function
    def run(self, f, args, this="this", store=None):
        """terms returned, as ('ret', term) or ('throw', type)"""
        S = {} if store is None else store
        for p, a in zip(f.params, args):
            self.put(S, p["id"], a)
        S["$this"] = this
        try:
            for i in f.d.get("inits") or ():
                self.init(f, S, i)
            body = [n for n in f.all("CompoundStmt") if f.parent(n) is None]
            if not body:
                raise Unknown("no body")
            self.stmt(f, S, body[0])
            return ("ret", None)
        except Returned as r:
            return ("ret", r.v)
        except Thrown as t:
            return ("throw", t.t)

    def init(self, f, S, i):
        e = i.get("e")
        if e is None:
            return
        e = f.node(e)
        if i.get("m"):
            self.put(S, S["$this"] + "." + last(i["m"]), self.term(f, S, e))
            return
        u = unwrap(f, e)
        if u["k"] in CALLS:
            g = self.one(u)
            if g is not None and "/usr/" not in g.file:
                T = {k: v for k, v in S.items() if k.startswith("this")}
                r = self.run(g, [self.term(f, S, x) for x in call_args(f, u)], S["$this"], T)
                if r[0] == "throw":
                    raise Thrown(r[1])
                S.update({k: v for k, v in T.items() if k.startswith("this")})

    # ------------------------------------------------ storage: 'root' or 'root.a.b' -> term
    def put(self, S, loc, t):
        for k in [k for k in S if k == loc or k.startswith(loc + ".")]:
            del S[k]
        if isinstance(t, tuple) and t[0] == "fields":
            for k, v in t[1]:
                self.put(S, f"{loc}.{k}", v)
        elif t is not None:
            S[loc] = t

    def get(self, S, loc):
        if loc in S:
            return S[loc]
        # part of an opaque object
        p = loc
        while "." in p:
            p, _, r = p.rpartition(".")
            if p in S:
                t = S[p]
                rest = loc[len(p) + 1:]
                if t[0] == "in":
                    return ("in", f"{t[1]}.{rest}")
                if t[0] == "fields":
                    for k, v in t[1]:
                        if rest == k:
                            return v
                raise Unknown(f"part {rest} of {show(t)}")
        sub = sorted((k[len(loc) + 1:], v) for k, v in S.items() if k.startswith(loc + "."))
        if sub:
            return ("fields", tuple(sub))
        if loc.startswith("this"):
            return ("in", loc)
        raise Unknown(f"value of {loc.split('#')[0]}")

    # ------------------------------------------------ statements
    def stmt(self, f, S, n):
        n = f.node(n)
        k = n["k"]
        if k == "CompoundStmt":
            for x in n["c"]:
                if x is not None:
                    self.stmt(f, S, x)
        elif k == "DeclStmt":
            for v in n["vars"]:
                i = v.get("init")
                if i is None:
                    continue
                i = i if isinstance(i, dict) else f.node(i)
                if v.get("bind"):
                    raise Unknown("structured binding")
                l = self.loc(f, S, i)
                if l and f.types[v["t"]].rstrip().endswith("&"):
                    S["&" + v["id"]] = l
                    continue
                self.put(S, v["id"], self.term(f, S, i))
        elif k == "ReturnStmt":
            raise Returned(self.term(f, S, n["c"][0]) if n.get("c") else None)
        elif k == "IfStmt":
            c = [x for x in n["c"]]
            i = 0
            while f.node(c[i])["k"] == "DeclStmt":
                self.stmt(f, S, c[i])
                i += 1
            if self.truth(f, S, c[i]):
                self.stmt(f, S, c[i + 1])
            elif len(c) > i + 2 and c[i + 2] is not None:
                self.stmt(f, S, c[i + 2])
        elif k == "CXXTryStmt":
            try:
                self.stmt(f, S, n["c"][0])
            except Thrown as t:
                for h in n["c"][1:]:
                    h = f.node(h)
                    ct = h.get("ct")
                    ct = f.types[ct].replace("const ", "").rstrip(" &") if isinstance(ct, int) and ct >= 0 else None
                    if ct is None or self.base_of(t.t, ct):
                        old = S.get("$exc")
                        S["$exc"] = t.t
                        self.stmt(f, S, h["c"][0] if len(h["c"]) == 1 else h["c"][-1])
                        S["$exc"] = old
                        return
                raise
        elif k == "NullStmt":
            pass
        elif k in ("ForStmt", "WhileStmt", "DoStmt"):
            self.loop(f, S, n)
        elif k in ("CXXForRangeStmt", "SwitchStmt", "GotoStmt"):
            raise Unknown(k)
        else:
            self.term(f, S, n, void=True)

    def loop(self, f, S, n):
        """a fixed point iteration: the value of the variable iterated on is one that the body maps to itself"""
        if n["k"] == "ForStmt" and n["c"][0] is not None and f.node(n["c"][0])["k"] == "DeclStmt":
            self.stmt(f, S, n["c"][0])
        body = f.node([x for x in n["c"] if x is not None][0 if n["k"] == "DoStmt" else -1])
        from .core import modified_targets, root_var, walk
        mod = []
        for x in _walk(f, n):
            for t in modified_targets(f, x):
                r = root_var(f, t)
                if r is not None and r not in mod:
                    mod.append(r)
        T = dict(S)
        for v in mod:
            if v in S:
                T[v] = ("in", "loop:" + v)
        self.stmt(f, T, body)
        fixed = False
        for v in mod:
            if v not in S:
                continue
            leaf = ("in", "loop:" + v)
            t = T.get(v)
            e = None
            if t is not None and t != leaf:
                if t[0] == "op" and t[1] == "+" and t[2] == leaf and t[3][0] == "op" and t[3][1] == "-" and t[3][3] == leaf:
                    e = t[3][2]
                elif t[0] == "op" and t[1] == "-" and t[2] == leaf and t[3][0] == "op" and t[3][1] == "-" and t[3][2] == leaf:
                    e = t[3][3]
                elif leaves(t, lambda z: z == leaf) and not (t[0] == "op" and t[2] == leaf):
                    e = t
            if e is not None and leaves(e, lambda z: z[0] == "in" and not z[1].startswith("loop:")):
                S[v] = ("fix", v, e)
                fixed = True
            else:
                S[v] = ("in", "?loop:" + v)
        if not fixed:
            raise Unknown("loop")

    # ------------------------------------------------ lvalues
    def loc(self, f, S, n):
        n = unwrap(f, n)
        k = n["k"]
        if k == "DeclRefExpr":
            d = n.get("d", {})
            if d.get("k") in ("Var", "Parm"):
                return S.get("&" + d["id"], d["id"])
            return None
        if k == "CXXThisExpr":
            return S["$this"]
        if k == "UnaryOperator" and n.get("op") == "*":
            return self.loc(f, S, n["c"][0])
        if k == "MemberExpr":
            if n.get("fid"):
                return None
            b = self.loc(f, S, n["c"][0]) if n.get("c") else S["$this"]
            return None if b is None else f"{b}.{last(n['m'])}"
        if k in CALLS:
            nm, o, a = last(n.get("f", "")), call_obj(f, n), call_args(f, n)
            if n.get("op") in ("[]", "()"):
                xs = list(n["c"][1:]) if n["k"] == "CXXOperatorCallExpr" else [o] + list(a) if o is not None else list(a)
                if len(xs) == 2:
                    u = unwrap(f, xs[1])
                    b, i = self.loc(f, S, xs[0]), u.get("ev", u.get("v") if u["k"] == "IntegerLiteral" else None)
                    return f"{b}.{AXES[int(i)]}" if b is not None and i is not None and int(i) in AXES else None
            if nm in ("x", "y", "z") and o is not None and not a:
                b = self.loc(f, S, o)
                return f"{b}.{nm}" if b is not None else None
            if o is not None and not a:
                # accessor of a member
                g = self.one(n)
                if g is not None:
                    r = [m for m in g.all("ReturnStmt") if m.get("c")]
                    b = self.loc(f, S, o)
                    if len(r) == 1 and b is not None:
                        u = unwrap(g, r[0]["c"][0])
                        if u["k"] == "MemberExpr" and not u.get("fid"):
                            return self.loc(g, {"$this": b}, u)
        return None

    def own_ctor(self, n):
        if n["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return None
        g = self.one(n)
        return g if g is not None and "/usr/" not in g.file and g.d.get("inits") else None

    def one(self, n):
        ts = [g for g in self.P.targets(n)]
        return ts[0] if len(ts) == 1 and ts[0].cfg else None

    # ------------------------------------------------ rvalues
    def truth(self, f, S, n):
        n = unwrap(f, n)
        k, op = n["k"], n.get("op")
        if k == "UnaryOperator" and op == "!":
            return not self.truth(f, S, n["c"][0])
        if k == "BinaryOperator" and op == "||":
            return self.truth(f, S, n["c"][0]) or self.truth(f, S, n["c"][1])
        if k == "BinaryOperator" and op == "&&":
            return self.truth(f, S, n["c"][0]) and self.truth(f, S, n["c"][1])
        return self.bool(self.term(f, S, n))

    def bool(self, t):
        if t[0] == "num":
            return bool(t[1])
        if t[0] == "op" and t[1] == "!":
            return not self.bool(t[2])
        if t[0] == "op" and t[1] in ("||", "&&"):
            a = self.bool(t[2])
            return self.bool(t[3]) if a == (t[1] == "&&") else a
        neg = False
        if t[0] == "op" and t[1] in ("!=", "=="):
            neg = t[1] == "!="
            if t[2] == t[3]:
                return not neg
            t = ("eq",) + tuple(sorted(t[2:], key=repr))
        a = self.atom(t)
        if a is None:
            raise Unknown(f"condition {show(t)}")
        if a not in self.facts:
            raise Need(a)
        return self.facts[a] != neg

    def term(self, f, S, n, void=False):
        n = unwrap(f, n)
        k = n["k"]
        self.depth += 1
        if self.depth > 400:
            raise Unknown("depth")
        try:
            return self._term(f, S, n, k, void)
        finally:
            self.depth -= 1

    def _term(self, f, S, n, k, void):
        if k in ("IntegerLiteral", "FloatingLiteral"):
            return ("num", float(n.get("ev", n.get("v"))))
        if k == "CXXBoolLiteralExpr":
            return ("num", 1.0 if str(n.get("ev", n.get("v"))) in ("1", "true", "True") else 0.0)
        if k == "CXXThrowExpr":
            if not n.get("c"):
                raise Thrown(S.get("$exc") or "?")
            raise Thrown(f.type(f.node(n["c"][0])).replace("const ", "").rstrip(" &"))
        if k == "ConditionalOperator":
            return self.term(f, S, n["c"][1] if self.truth(f, S, n["c"][0]) else n["c"][2])
        if k in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
            return ("num", 0.0)
        if k == "InitListExpr" and not n.get("c"):
            fl = self.fields(f.type(n))
            return ("fields", tuple((x, ("num", 0.0)) for x in fl)) if fl else ("num", 0.0)
        if k in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr",
                 "CXXConstCastExpr", "CStyleCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            a = [x for x in n["c"] if x is not None and f.node(x)["k"] != "CXXDefaultArgExpr"]
            if len(a) == 1 and not (n.get("flds") or n["k"] == "CXXConstructExpr" and not n.get("copy") and self.own_ctor(n)):
                return self.term(f, S, a[0])
            fl = self.fields(f.type(n))
            if n.get("flds"):
                fl = [last(x) for x in n["flds"]]
            g = self.own_ctor(n)
            if g is not None and not n.get("copy"):
                T = {}
                r = self.run(g, [self.term(f, S, x) for x in a], "obj", T)
                if r[0] == "throw":
                    raise Thrown(r[1])
                return self.get({k[4:]: v for k, v in T.items() if k.startswith("obj.")} and {("o." + k[4:]): v for k, v in T.items() if k.startswith("obj.")}, "o")
            if not a:
                return ("fields", tuple((x, ("num", 0.0)) for x in fl)) if fl else ("in", "default")
            if n.get("flds") and len(n["flds"]) >= len(a):
                return ("fields", tuple((last(x), self.term(f, S, y)) for x, y in zip(n["flds"], a)))
            if f.type(n).startswith("GeographicLib::"):
                return ("obj", f.type(n), tuple(self.term(f, S, x) for x in a))
            if fl and len(fl) == len(a):
                return ("fields", tuple((x, self.term(f, S, y)) for x, y in zip(fl, a)))
            raise Unknown(f"construction of {f.type(n)}")
        if k == "BinaryOperator":
            op = n["op"]
            if op == "=":
                v = self.term(f, S, n["c"][1])
                l = self.loc(f, S, n["c"][0])
                if l is None:
                    raise Unknown("target of assignment")
                self.put(S, l, v)
                return v
            if op == ",":
                self.term(f, S, n["c"][0], void=True)
                return self.term(f, S, n["c"][1])
            if op in ("||", "&&"):
                return ("num", 1.0 if self.truth(f, S, n) else 0.0)
            return ("op", op, self.term(f, S, n["c"][0]), self.term(f, S, n["c"][1]))
        if k == "CompoundAssignOperator":
            l = self.loc(f, S, n["c"][0])
            if l is None:
                raise Unknown("target of assignment")
            v = ("op", n["op"].rstrip("="), self.get(S, l), self.term(f, S, n["c"][1]))
            self.put(S, l, v)
            return v
        if k == "UnaryOperator" and n["op"] in ("-", "+", "!"):
            t = self.term(f, S, n["c"][0])
            return t if n["op"] == "+" else ("op", n["op"], t)
        if k == "DeclRefExpr" and n.get("d", {}).get("k") in ("Global", "Enum"):
            if "ev" in n:
                return ("num", float(n["ev"]))
            return ("in", "g:" + n["d"]["n"])
        l = self.loc(f, S, n)
        if l is not None:
            return self.get(S, l)
        if k in CALLS:
            return self.call(f, S, n, void)
        if void:
            return None
        raise Unknown(k)

    def call(self, f, S, n, void):
        q, o, a = n.get("f", ""), call_obj(f, n), list(call_args(f, n))
        nm = last(q)
        if n.get("op") == "=" and len(n["c"]) == 3:
            l = self.loc(f, S, n["c"][1])
            if l is None:
                raise Unknown("target of assignment")
            v = self.term(f, S, n["c"][2])
            self.put(S, l, v)
            return v
        if n.get("op") in ("+", "-", "*", "/") and len(n["c"]) in (2, 3):
            xs = [self.term(f, S, x) for x in n["c"][1:]]
            return self.vector(n["op"], xs)
        if n.get("op") in ("+=", "-=", "*=", "/=") and len(n["c"]) == 3:
            l = self.loc(f, S, n["c"][1])
            v = self.vector(n["op"][0], [self.get(S, l), self.term(f, S, n["c"][2])])
            self.put(S, l, v)
            return v
        if q.startswith("GeographicLib::") and not a and q not in self.ext:
            return ("in", q)
        if q in self.ext:
            return self.external(f, S, n, q, o, a)
        g = self.one(n)
        if g is not None and "/usr/" not in g.file:
            this = None
            if o is not None:
                this = self.loc(f, S, o)
                if this is None and g.kind == "method" and not g.flag("static"):
                    raise Unknown(f"object of {nm}")
            self.calls.append((g, [self.term(f, S, x) for x in a]))
            T = {k_: v for k_, v in S.items() if k_.startswith("this")}
            names = {}
            for p, x in zip(g.params, a):
                if g.ptype(p).rstrip().endswith("&") and self.loc(f, S, x) is not None and not g.ptype(p).startswith("const"):
                    names[p["id"]] = self.loc(f, S, x)
            r = self.run(g, [self.term(f, S, x) if p["id"] not in names else self.try_term(f, S, x) for p, x in zip(g.params, a)], this or S["$this"], T)
            if r[0] == "throw":
                raise Thrown(r[1])
            for pid, l in names.items():
                try:
                    self.put(S, l, self.get(T, pid))
                except Unknown:
                    pass
            for k_, v in T.items():
                if k_.startswith("this"):
                    S[k_] = v
            return r[1]
        if q.startswith("std::") or "::" not in q:
            ts = [self.term(f, S, x) for x in a]
            if nm in ("move", "forward") and len(ts) == 1:
                return ts[0]
            return ("fn", nm) + tuple(ts)
        if nm in ("what", "c_str", "str"):
            return ("in", "text")
        raise Unknown(f"call of {q}")

    def vector(self, op, xs):
        fs = [x for x in xs if x[0] == "fields"]
        if not fs:
            return ("op", op) + tuple(xs)
        names = [k for k, _ in fs[0][1]]
        out = []
        for k in names:
            r = []
            for x in xs:
                if x[0] == "fields":
                    r.append(dict(x[1])[k])
                elif x[0] == "in" and x[1].startswith(("this", "origin")):
                    r.append(("in", f"{x[1]}.{k}"))
                else:
                    r.append(x)
            out.append((k, ("op", op) + tuple(r)))
        return ("fields", tuple(out))

    def try_term(self, f, S, x):
        try:
            return self.term(f, S, x)
        except Unknown:
            return None

    def external(self, f, S, n, q, o, a):
        roles = self.ext[q]
        idx = self.count
        self.count += 1
        if self.fault == idx:
            self.faulted = q
            raise Thrown("GeographicLib::GeographicErr")
        ins, outs = [], []
        for (role, io), x in zip(roles, a):
            if f.node(x)["k"] == "CXXDefaultArgExpr":
                continue
            if io == "i":
                ins.append((role, self.term(f, S, x)))
            else:
                outs.append((role, self.loc(f, S, x)))
        if o is not None:
            ob = self.loc(f, S, o)
            u = unwrap(f, o)
            ins.append(("object", ("in", ob if ob is not None else u.get("f", "?"))))
        ins = tuple(ins)
        for role, l in outs:
            if l is None:
                raise Unknown(f"output {role} of {q}")
            self.put(S, l, ("ext", q, role, ins))
        return ("ext", q, "result", ins)


# ------------------------------------------------------------------ chains: one input, invertible steps
INV = {("exp", "log"), ("log", "exp"), ("tan", "atan"), ("atan", "tan"), ("sin", "asin"), ("asin", "sin"), ("sinh", "asinh"),
       ("asinh", "sinh"), ("tanh", "atanh"), ("atanh", "tanh"), ("cos", "acos"), ("acos", "cos"), ("log2", "exp2"), ("exp2", "log2")}


def leaves(t, want):
    if not isinstance(t, tuple):
        return set()
    if want(t):
        return {t}
    r = set()
    for x in t[1:]:
        if isinstance(x, tuple):
            r |= leaves(x, want)
    return r


class Chain:
    """leaf, then steps: ('lin', a, b) with a monomial and b a sum of monomials, or ('fn', name)"""
    def __init__(self, leaf, steps):
        self.leaf, self.steps = leaf, steps


def mono(c=1.0, s=()):
    return (c, tuple(sorted(s)))


def mmul(a, b):
    d = dict(a[1])
    for k, e in b[1]:
        d[k] = d.get(k, 0) + e
    return (a[0] * b[0], tuple(sorted((k, e) for k, e in d.items() if e)))


def minv(a):
    if a[0] == 0:
        raise Unknown("division by zero")
    return (1.0 / a[0], tuple(sorted((k, -e) for k, e in a[1])))


def padd(p, q):
    d = dict(p)
    for k, v in q:
        d[k] = d.get(k, 0.0) + v
    m = max([abs(v) for _, v in p] + [abs(v) for _, v in q] + [1e-300])
    return tuple(sorted((k, v) for k, v in d.items() if abs(v) > 1e-9 * m))


def pmul(p, m):
    d = {}
    for k, v in p:
        c, s = mmul((v, k), m)
        d[s] = d.get(s, 0.0) + c
    return tuple(sorted((k, v) for k, v in d.items() if v))


def norm_steps(steps):
    out = []
    for s in steps:
        if s[0] == "lin" and out and out[-1][0] == "lin":
            _, a1, b1 = out.pop()
            s = ("lin", mmul(a1, s[1]), padd(pmul(b1, s[1]), s[2]))
        if s[0] == "lin" and not s[1][1] and abs(s[1][0] - 1.0) < 1e-9 and not s[2]:
            continue
        if s[0] == "fn" and out and out[-1][0] == "fn" and (out[-1][1], s[1]) in INV:
            out.pop()
            continue
        out.append(s)
    return out


def fix(steps):
    while True:
        n = norm_steps(steps)
        if n == steps:
            return n
        steps = n


def const(t):
    """a term without input as a sum of monomials"""
    k = t[0]
    if k == "num":
        return ((( ), t[1]),) if t[1] else ()
    if k == "op" and len(t) == 3 and t[1] == "-":
        return pmul(const(t[2]), mono(-1.0))
    if k == "op" and t[1] == "+":
        return padd(const(t[2]), const(t[3]))
    if k == "op" and t[1] == "-":
        return padd(const(t[2]), pmul(const(t[3]), mono(-1.0)))
    if k == "op" and t[1] == "*":
        a, b = const(t[2]), const(t[3])
        r = ()
        for s, c in b:
            r = padd(r, pmul(a, (c, s)))
        return r
    if k == "op" and t[1] == "/":
        b = const(t[3])
        if len(b) != 1:
            return pmul(const(t[2]), (1.0, ((("(" + show_p(b) + ")"), -1),)))
        return pmul(const(t[2]), minv((b[0][1], b[0][0])))
    if k == "fn" and t[1] in ("min", "max", "clamp") and len([x for x in t[2:] if x[0] not in ("num",) and not (x[0] == "op" and len(x) == 3 and x[2][0] == "num")]) == 1:
        return const([x for x in t[2:] if x[0] != "num" and not (x[0] == "op" and len(x) == 3 and x[2][0] == "num")][0])
    if k == "fn" and t[1] in ("atan", "atan2", "acos", "asin") and all(x[0] == "num" for x in t[2:]):
        return (((), getattr(math, t[1])(*[x[1] for x in t[2:]])),)
    if k == "fn":
        return ((((t[1] + "(" + ", ".join(show_p(const(x)) for x in t[2:]) + ")", 1),), 1.0),)
    if k == "in":
        return ((((t[1], 1),), 1.0),)
    if k == "ext":
        return ((((f"{t[1]}.{t[2]}(" + ", ".join(f"{r}={show_p(const(x))}" for r, x in t[3]) + ")", 1),), 1.0),)
    raise Unknown(show(t))


def show_p(p):
    return " + ".join((f"{v:.9g}" + ("" if not k else "*" + "*".join(s + (f"^{e}" if e != 1 else "") for s, e in k))) for k, v in p) or "0"


def single(t):
    p = const(t)
    if len(p) != 1:
        raise Unknown(f"factor {show_p(p)}")
    return (p[0][1], p[0][0])


def chain(t, isleaf):
    if isleaf(t):
        return Chain(t, [])
    k = t[0]
    var = lambda x: bool(leaves(x, isleaf))
    if k == "op" and len(t) == 3 and t[1] == "-":
        c = chain(t[2], isleaf)
        return Chain(c.leaf, c.steps + [("lin", mono(-1.0), ())])
    if k == "op" and t[1] in "+-*/":
        a, b = t[2], t[3]
        if var(a) and var(b):
            if t[1] in "*/":
                # one of the two as a factor known by its text
                for v, w, inv in ((a, b, t[1] == "/"), (b, a, False)):
                    try:
                        if v is b and t[1] == "/":
                            continue
                        c = chain(v, isleaf)
                        q = const(w)
                        m = (q[0][1], q[0][0]) if len(q) == 1 else (1.0, (("(" + show_p(q) + ")", 1),))
                        m = minv(m) if inv else m
                        return Chain(c.leaf, c.steps + [("lin", m, ())])
                    except Unknown:
                        pass
            raise Unknown("two inputs combined: " + show(t)[:200])
        if t[1] in "+-":
            if var(a):
                c = chain(a, isleaf)
                return Chain(c.leaf, c.steps + [("lin", mono(), const(b) if t[1] == "+" else pmul(const(b), mono(-1.0)))])
            c = chain(b, isleaf)
            return Chain(c.leaf, c.steps + [("lin", mono(1.0 if t[1] == "+" else -1.0), const(a))])
        if t[1] == "*":
            v, s = (a, b) if var(a) else (b, a)
            c = chain(v, isleaf)
            return Chain(c.leaf, c.steps + [("lin", single(s), ())])
        if var(b):
            c = chain(b, isleaf)
            return Chain(c.leaf, c.steps + [("fn", "recip"), ("lin", single(a), ())])
        c = chain(a, isleaf)
        return Chain(c.leaf, c.steps + [("lin", minv(single(b)), ())])
    if k == "fn" and t[1] in ("min", "max", "clamp"):
        v = [x for x in t[2:] if var(x)]
        if len(v) == 1 and all(not leaves(x, lambda z: z[0] in ("in", "ext")) for x in t[2:] if x is not v[0]):
            return chain(v[0], isleaf)
        raise Unknown(show(t))
    if k == "fn" and len(t) == 3:
        c = chain(t[2], isleaf)
        return Chain(c.leaf, c.steps + [("fn", t[1])])
    raise Unknown(show(t))


def show_steps(s):
    return " -> ".join(x[1] if x[0] == "fn" else f"*{show_p((( x[1][1], x[1][0]),))}{'+' + show_p(x[2]) if x[2] else ''}" for x in s) or "identity"
