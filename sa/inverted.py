"""Abstract evaluation of the accessors of views with an 'inverted' flag: what they denote for both values of the flag.

terms   ("bool", b)                          a truth value
        ("ln", base, rev)                    line: base 'L' / 'R' / 'C' (bounds, centerline of the shared data) or a parameter
        ("seq", base, rev, einv)             sequence of the shared data (points, line strings, lanelets), elements inverted or not
        ("it", base, pos, rev)               iterator at 'begin'/'end' of the sequence as traversed (rev: backwards)
        ("el", base, end, idx)               element counted from 'front' or 'back' of the stored order
        ("idx", end, what)                   an index counted from either end
        ("data",), ("this",), ("size",), ("opaque", key)
effects ("set", base, term), ("ins", end), ("del", end), ("assign", rev), ("reverse",), ("resize",)
"""
import re
from .core import *

PRESERVE = {"move", "forward", "to2D", "to3D", "toHybrid", "toConst", "toBasicPoint", "get", "operator->", "operator*", "const_pointer_cast", "basicPoint",
            "static_pointer_cast", "as_const", "cref", "ref", "basicLineString"}
FLIPEND = {"front": "back", "back": "front", "begin": "end", "end": "begin"}
SEQF = re.compile(r"::(points_|ls_|lanelets_)$")


class Undecided(Exception):
    pass


def last(q):
    return re.sub(r"<.*", "", q or "").rsplit("::", 1)[-1]


def flip(t):
    """what an inverted view has to hand out where the normal view hands out t"""
    k = t[0]
    if k == "ln":
        b = {"L": "R", "R": "L"}.get(t[1], t[1])
        return ("ln", b, not t[2])
    if k == "seq":
        return ("seq", t[1], not t[2], (not t[3]) if t[1] == "ls_" else t[3])
    if k == "it":
        return ("it", t[1], t[2], not t[3])
    if k == "el":
        return ("el", t[1], FLIPEND[t[2]], t[3])
    if k == "posret":
        return ("revpos", ("arith", "+", t, ("int", 1)) if t[1] == "ins" else t)
    if k in ("arith", "cond"):
        return t[:2] + tuple(flip(x) if isinstance(x, tuple) and not (x[0] == "ln" and x[1].startswith("p:")) else x for x in t[2:])
    if k == "call":
        return ("call", t[1], tuple(x if x[0] == "ln" and x[1].startswith("p:") else flip(x) for x in t[2]))
    return t


def flip_effects(es):
    out = []
    for e in es:
        if e[0] == "set":
            b = {"L": "R", "R": "L"}.get(e[1], e[1])
            v = e[2]
            out.append(("set", b, ("ln", v[1], not v[2]) if v[0] == "ln" else v))
        elif e[0] in ("ins", "del"):
            out.append((e[0], FLIPEND[e[1]]) + e[2:])
        elif e[0] == "insat":
            a = e[2]
            out.append(("insat", e[1], tuple(("rev", x) for x in reversed(a)) if len(a) == 2 else a))
        elif e[0] == "eraseat":
            out.append(("eraseat", e[1] + 1))
        elif e[0] == "assign":
            out.append(("assign", not e[1]))
        elif e[0] == "resize":
            out += [("reverse",), ("resize",), ("reverse",)]
        else:
            out.append(e)
    return out


class Ev:
    def __init__(self, P):
        self.P = P
        self.reads = set()

    def func(self, f, inv, env, this=("this",), depth=0):
        """(returned term or None, effects)"""
        if depth > 12:
            raise Undecided("depth")
        body = [n for n in f.all("CompoundStmt") if f.parent(n) is None]
        if not body:
            raise Undecided("no body " + f.name)
        eff = []
        r = self.stmt(f, body[0], inv, env, this, eff, depth)
        return r, eff

    def stmt(self, f, n, inv, env, this, eff, depth):
        n = f.node(n)
        k = n["k"]
        if k == "CompoundStmt":
            for x in n.get("c", ()):
                if x is None:
                    continue
                r = self.stmt(f, x, inv, env, this, eff, depth)
                if r is not None:
                    return r
            return None
        if k == "ReturnStmt":
            c = [x for x in n.get("c", ()) if x is not None]
            return self.ex(f, c[0], inv, env, this, eff, depth) if c else ("void",)
        if k == "IfStmt":
            c = [x for x in n["c"]]
            cond = n.get("cond", None)
            parts = [f.node(x) for x in c if x is not None]
            if cond is not None:
                cond = f.node(cond)
                parts = [p for p in parts if p["i"] != cond["i"]]
            else:
                cond, parts = parts[0], parts[1:]
            b = self.ex(f, cond, inv, env, this, eff, depth)
            if b[0] != "bool":
                raise Undecided("condition")
            if b[1]:
                return self.stmt(f, parts[0], inv, env, this, eff, depth) if parts else None
            return self.stmt(f, parts[1], inv, env, this, eff, depth) if len(parts) > 1 else None
        if k == "DeclStmt":
            for v in n.get("vars", ()):
                if v.get("init") is not None:
                    env[v["id"]] = self.ex(f, v["init"], inv, env, this, eff, depth)
            return None
        if k in ("NullStmt", "TypedefDecl"):
            return None
        if k in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt", "SwitchStmt", "CXXTryStmt"):
            raise Undecided(k)
        if self.isassert(n):
            return None
        self.ex(f, n, inv, env, this, eff, depth)
        return None

    @staticmethod
    def isassert(n):
        m = n.get("mac")
        return bool(m) and ("assert" in str(m))

    def ex(self, f, n, inv, env, this, eff, depth):
        n = unwrap(f, f.node(n))
        if n is None:
            raise Undecided("null")
        k = n["k"]
        go = lambda x: self.ex(f, x, inv, env, this, eff, depth)
        if self.isassert(n):
            return ("void",)
        c = [x for x in n.get("c", ()) if x is not None]
        if k == "CXXBoolLiteralExpr":
            return ("bool", bool(n.get("v")))
        if k == "IntegerLiteral":
            return ("int", int(n.get("v", 0)))
        if k == "CXXThisExpr":
            return this
        if k == "UnaryOperator":
            t = go(c[0])
            if n.get("op") == "!" and t[0] == "bool":
                return ("bool", not t[1])
            if n.get("op") in ("*", "&"):
                return t
            raise Undecided("unary")
        if k == "DeclRefExpr":
            d = n.get("d") or {}
            if d.get("id") in env:
                return env[d["id"]]
            if d.get("k") == "Parm":
                return ("ln", "p:" + d["n"], False) if "bool" != f.type(n).replace("const ", "") else ("opaque", d["n"])
            raise Undecided("ref " + str(d.get("n")))
        if k == "MemberExpr":
            m = n.get("m", "")
            b = c[0] if c else None
            if last(m) == "inverted_":
                return self.flag(go(b) if b is not None else this, inv)
            t = go(b) if b is not None else this
            if last(m) in ("data_", "constData_", "laneletData_"):
                return ("data",)
            return self.leaf(m, t)
        if k == "ConditionalOperator":
            b = go(c[0])
            if b[0] != "bool":
                return ("cond", b, go(c[1]), go(c[2]))
            return go(c[1] if b[1] else c[2])
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups",
                 "CXXBindTemporaryExpr", "ConstantExpr", "ImplicitCastExpr", "CXXConstCastExpr"):
            return go(c[0])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            a = [x for x in c if f.node(x)["k"] != "CXXDefaultArgExpr"]
            ty = n.get("f", "") or f.type(n)
            if len(a) == 1:
                t = go(a[0])
                if "reverse_iterator" in ty and "ReverseAndForward" not in ty:
                    if t[0] == "it":
                        return ("it", t[1], FLIPEND[t[2]], not t[3])
                    if t[0] in ("posret", "arith"):
                        return ("revpos", t)
                    if t[0] == "ln":
                        return ("rev", t)
                return t
            ts = [go(x) for x in a]
            if len(ts) == 2 and ts[0][0] == "it" and ts[1][0] == "it" and ts[0][1] == ts[1][1] and ts[0][3] == ts[1][3] and \
                    (ts[0][2], ts[1][2]) == ("begin", "end"):
                return ("seq", "of " + ts[0][1], ts[0][3], False)
            if len(ts) == 2 and ts[0][0] == "data" and ts[1][0] == "bool":
                return ("view", ts[1][1])
            return ("call", last(ty), tuple(ts))
        if k == "BinaryOperator":
            op = n.get("op")
            if op == "=":
                return self.assign(f, c[0], go(c[1]), inv, env, this, eff, depth)
            a, b = go(c[0]), go(c[1])
            if op == "-" and a == b == ("int", -1):
                return ("int", 0)           # size() - 1 - (size() - 1)
            if op == "-" and a == ("int", -1):
                return ("idx", "back", self.ix(b))
            if op == "-" and a[0] == "size" and b == ("int", 1):
                return ("int", -1)          # size() - 1
            if op == "-" and a[0] == "size":
                return ("sizeminus", b)
            if op == "-" and a[0] == "sizeminus" and b == ("int", 1):
                return ("idx", "back", self.ix(a[1]))
            if op == "-" and a[0] == "sizeminus":
                return ("idx", "back", self.ix(("arith", "-", ("arith", "+", a[1], b), ("int", 1))))
            if op in ("&&", "||") and a[0] == b[0] == "bool":
                return ("bool", (a[1] and b[1]) if op == "&&" else (a[1] or b[1]))
            if op in ("==", "!=") and a[0] == b[0] == "bool":
                return ("bool", (a[1] == b[1]) == (op == "=="))
            if op in ("+", "-", "*", "<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                return ("arith", op, a, b)
            raise Undecided("binary " + str(op))
        if k == "CompoundAssignOperator" and n.get("op") in ("+=", "-="):
            return self.advance(f, c[0], n["op"], go(c[1]), env)
        if k in CALLS or k == "CXXMemberCallExpr" or k == "CallExpr" or k == "CXXOperatorCallExpr":
            return self.call(f, n, inv, env, this, eff, depth)
        raise Undecided(k)

    @staticmethod
    def ix(t):
        return t[1] if t[0] == "ln" else t[2] if t[0] == "idx" else t

    def advance(self, f, l, op, by, env):
        d = (unwrap(f, f.node(l)) or {}).get("d") or {}
        if d.get("k") not in ("Var", "Parm") or by[0] != "int":
            raise Undecided("advance")
        cur = env.get(d["id"], ("pos", 0))
        if cur[0] != "pos":
            raise Undecided("advance")
        env[d["id"]] = ("pos", cur[1] + (by[1] if op == "+=" else -by[1]))
        return env[d["id"]]

    def flag(self, obj, inv):
        if obj[0] == "this":
            return ("bool", inv)
        if obj[0] == "ln":
            return ("opaque", "inverted")
        raise Undecided("flag")

    def leaf(self, m, t):
        l = last(m)
        if SEQF.search(m):
            return ("seq", l, False, False)
        low = l.lower()
        if "left" in low and "right" not in low:
            return ("ln", "L", False)
        if "right" in low and "left" not in low:
            return ("ln", "R", False)
        if "centerline" in low:
            return ("ln", "C", False)
        raise Undecided("field " + m)

    def assign(self, f, l, val, inv, env, this, eff, depth):
        ln = unwrap(f, f.node(l))
        d = (ln or {}).get("d") or {}
        if d.get("k") in ("Var", "Parm"):
            env[d["id"]] = val
            return val
        t = self.ex(f, l, inv, env, this, eff, depth)
        if t[0] == "seq" and t[1].endswith("points_") and val[0] in ("seq", "ln"):
            eff.append(("assign", val[2]))
            return t
        raise Undecided("assign")

    def call(self, f, n, inv, env, this, eff, depth):
        P = self.P
        go = lambda x: self.ex(f, x, inv, env, this, eff, depth)
        q = n.get("f", "")
        m = last(q)
        if not m and n["k"] == "CXXMemberCallExpr":
            raise Undecided("member pointer")
        obj = call_obj(f, n)
        args = [x for x in call_args(f, n) if x is not None and f.node(x)["k"] != "CXXDefaultArgExpr"]
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
            return self.assign(f, n["c"][1], go(n["c"][2]), inv, env, this, eff, depth)
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("+=", "-="):
            return self.advance(f, n["c"][1], n["op"], go(n["c"][2]), env)
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("+", "-", "==", "!=", "<", ">") and len(n["c"]) == 3:
            return ("arith", n["op"], go(n["c"][1]), go(n["c"][2]))
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("++", "--"):
            return self.advance(f, n["c"][1], n["op"][0] + "=", ("int", 1), env)
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("->", "*"):
            return go(n["c"][1])
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]":
            obj, args, m = n["c"][1], [n["c"][2]], "operator[]"
        static = obj is None
        o = None
        if obj is not None:
            o = go(obj)
        elif n["k"] == "CXXMemberCallExpr":
            o = this
        if m == "inverted" and o is not None and not args:
            return self.flag(o, inv)
        if m in ("data", "constData") and o is not None and not args:
            if o[0] == "this":
                return ("data",)
            raise Undecided("data of other")
        if m == "lock" and o is not None and o[0] == "data":
            return o
        if m == "invert":
            if o is not None and not args:
                if o[0] == "ln":
                    return ("ln", o[1], not o[2])
                if o[0] == "this":
                    ts = [t for t in P.targets(n) if t.nodes]
                    if ts:
                        return self.func(ts[0], inv, {}, this, depth + 1)[0]
                raise Undecided("invert")
            t = go(args[0])
            if t[0] == "seq":
                return ("seq", t[1], not t[2], t[3])
            if t[0] == "ln":
                return ("ln", t[1], not t[2])
            raise Undecided("invert()")
        if m in ("transform",) and args:
            t = go(args[0])
            lam = [l for a in args for x in walk(f.node(a)) for l in P.lambdas(x)]
            einv = any(y["k"] in CALLS and last(y.get("f", "")) == "invert" for l in lam for y in l.nodes.values())
            if t[0] == "it" and len(args) >= 2:
                u = go(args[1])
                if u[0] == "it" and u[1] == t[1] and u[3] == t[3] and (t[2], u[2]) == ("begin", "end"):
                    t = ("seq", t[1], t[3], False)
            if t[0] == "seq":
                return ("seq", t[1] if einv else "of " + t[1], t[2], t[3] != einv)
            raise Undecided("transform")
        if m == "reverse" and static and len(args) == 2:
            t, u = go(args[0]), go(args[1])
            if t[0] == u[0] == "it" and t[1] == u[1]:
                b0 = unwrap(f, f.node(args[0]))
                if b0["k"] in CALLS and (call_obj(f, b0) is not None or call_args(f, b0)):
                    b0 = call_obj(f, b0) or call_args(f, b0)[0]
                a0 = root_var(f, b0)
                if a0 in env or t[1].startswith("p:"):
                    cur = env.get(a0, ("ln", t[1], False))
                    env[a0] = (cur[0], cur[1], not cur[2]) + tuple(cur[3:])
                else:
                    eff.append(("reverse",))
                return ("void",)
            raise Undecided("reverse")
        its = {"begin": ("begin", 0), "end": ("end", 0), "cbegin": ("begin", 0), "cend": ("end", 0),
               "rbegin": ("begin", 1), "rend": ("end", 1), "crbegin": ("begin", 1), "crend": ("end", 1)}
        if m in its:
            t = o if o is not None and o[0] in ("seq", "ln") else (go(args[0]) if static and len(args) == 1 else None)
            if t is not None and t[0] in ("seq", "ln"):
                p, r = its[m]
                return ("it", t[1], p, bool(r) != t[2])
        if o is not None and o[0] == "seq":
            if m in ("front", "back") and not args:
                return ("el", o[1], m if not o[2] else FLIPEND[m], 0)
            if m in ("operator[]", "at") and len(args) == 1:
                i = go(args[0])
                if i[0] == "sizeminus":
                    i = ("idx", "back", ("arith", "-", self.ix(i[1]), ("int", 1)))
                if i[0] in ("arith", "cond"):
                    i = ("idx", "front", i)
                i = ("idx", "front", i[1]) if i[0] == "ln" else i
                if i[0] == "idx":
                    return ("el", o[1], i[1] if not o[2] else FLIPEND[i[1]], i[2])
                if i[0] == "int" and i[1] in (0, -1):
                    e = "front" if i[1] == 0 else "back"
                    return ("el", o[1], e if not o[2] else FLIPEND[e], 0)
            if m == "size":
                return ("size",)
            if m in ("push_back", "emplace_back"):
                eff.append(("ins", "end"))
                return ("void",)
            if m == "pop_back":
                eff.append(("del", "end"))
                return ("void",)
            if m in ("insert", "erase", "emplace") and args:
                t = go(args[0])
                if t[0] == "pos":
                    if m == "erase" and len(args) == 1:
                        eff.append(("eraseat", t[1]))
                        return ("posret", "del")
                    if m != "erase":
                        eff.append(("insat", t[1], tuple(go(x) for x in args[1:])))
                        return ("posret", "ins")
                if t[0] == "it" and not t[3]:
                    if m == "erase":
                        if len(args) == 1 and t[2] == "begin":
                            eff.append(("del", "begin"))
                            return ("void",)
                    else:
                        eff.append(("ins", t[2]))
                        return ("void",)
                raise Undecided("insert")
            if m == "resize":
                eff.append(("resize",))
                return ("void",)
            raise Undecided("sequence." + m)
        if m == "size" and o is not None and o[0] == "this":
            return ("size",)
        if o is not None and o[0] in ("data", "this"):
            ts = [t for t in P.targets(n)]
            t = ts[0] if ts else None
            low = m.lower()
            if o[0] == "data" and re.match(r"set(left|right|center)", low) and len(args) == 1:
                eff.append(("set", "L" if "left" in low else "R" if "right" in low else "C", go(args[0])))
                return ("void",)
            if t is not None and t.nodes and not t.flag("dep") and "/usr/" not in t.loc():
                env2 = {}
                for p, a in zip(t.params, args):
                    try:
                        env2[p["id"]] = go(a)
                    except Undecided:
                        env2[p["id"]] = ("opaque", p["n"])
                try:
                    e2 = []
                    r, e2 = self.func(t, inv if o[0] == "this" else None, env2, o, depth + 1)
                    eff += e2
                    return r if r is not None else ("void",)
                except Undecided:
                    if o[0] == "this":
                        raise
            if o[0] == "data" and not args:
                return self.leaf(q, o)
            raise Undecided("call " + q)
        if m.startswith("operator ") and o is not None and not args:
            return o
        if m == "pointIter" and len(args) == 1:
            t = go(args[0])
            return ("pos", 0) if t[0] == "ln" else t
        if m == "reversed" and len(args) == 1 and o is None:
            return ("revpos", go(args[0]))
        if m in ("distance", "max", "min", "make_pair") and static:
            return ("call", m, tuple(go(x) for x in args))
        if m in PRESERVE and len(args) == 1 and static:
            return go(args[0])
        if o is not None and m in PRESERVE and not args:
            return o
        if m in ("next", "prev") and args:
            t = go(args[0])
            return ("call", m, tuple(go(x) if i else t for i, x in enumerate(args)))
        raise Undecided("call " + q)
