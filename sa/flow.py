"""May-flow of values: which inputs of a function can reach its results (flow insensitive per function, by summaries
across library functions; unknown callees mix all their arguments into everything they may write)."""
import re
from collections import defaultdict
from .core import *

LOCAL = ("Var", "Parm", "Binding", "Decomposition")
RET, THIS, CTL = ("ret",), ("this",), ("ctl",)


def lvars(n):
    """variable id of a reference to a local"""
    d = n.get("d") or {}
    return d.get("id") if n["k"] == "DeclRefExpr" and d.get("k") not in ("Enum", "EnumConstant", "Function", "CXXMethod") else None


class Graph:
    """flow graph of a function including the lambdas written in it"""

    def __init__(self, F, f):
        self.F, self.f = F, f
        self.succ = defaultdict(set)
        self.lams = {}
        self.direct = defaultdict(set)
        self.lamparam = set()     # edges of arguments into lambdas handed along with them
        self.calls = []
        self.owner = {}
        self._build(f, ("ret",))

    def edge(self, a, b):
        if a is not None and b is not None and a != b:
            self.succ[a].add(b)

    def e(self, f, n):
        return ("e", f.id, n["i"])

    def lval(self, f, n, deep=False):
        """nodes written when the lvalue expression n is written"""
        n = f.node(n)
        via = False
        while n is not None:
            k = n["k"]
            v = lvars(n)
            if v is not None:
                return [("v", v)]
            if k == "MemberExpr":
                if not n.get("c"):
                    return []
                b = unwrap(f, n["c"][0])
                if b is not None and b["k"] == "CXXThisExpr":
                    return [("tf", n.get("m") or n.get("n"))]
                bv = lvars(b) if b is not None else None
                if bv is not None and not n.get("arrow"):
                    return [("vf", bv, n.get("m") or n.get("n"))]
                n = b
                continue
            if k == "CXXThisExpr":
                return [THIS]
            if k == "CXXOperatorCallExpr" and n.get("op") in ("[]", "*", "->", "++", "--", "+", "-"):
                n = f.node(n["c"][1])
                continue
            if k in ("ArraySubscriptExpr", "UnaryOperator", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr",
                     "CXXFunctionalCastExpr", "CXXDynamicCastExpr"):
                n = f.node(n["c"][0]) if n.get("c") else None
                continue
            if k == "ConditionalOperator":
                return self.lval(f, n["c"][1]) + self.lval(f, n["c"][2])
            if k in CALLS:
                if n.get("f") in ("std::move", "std::forward", "std::as_const", "boost::move"):
                    n = f.node(n["c"][1])
                    continue
                o = call_obj(f, n)
                if o is not None:      # accessor returning something inside the object
                    n = o
                    continue
                a = [x for x, m in zip(call_args(f, n), n.get("pm", "")) if m in "nr"]
                if len(a) >= 1 and k == "CallExpr":
                    out = []
                    for x in a:
                        out += self.lval(f, x)
                    return out
            return []
        return []

    def write(self, f, n, src):
        for t in self.lval(f, n):
            self.edge(src, t)

    def _var(self, v):
        self.edge(("v", v), ("va", v))

    def _build(self, f, ret):
        F = self.F
        self.lams[f.id] = ret
        for i in f.d.get("inits", ()):
            if i.get("e"):
                self.edge(self.e(f, i["e"]), ("tf", i.get("m") or i.get("n") or i.get("f")) if (i.get("m") or i.get("n") or i.get("f")) else THIS)
        for n in f.nodes.values():
            k, me = n["k"], self.e(f, n)
            self.owner[me] = f
            v = lvars(n)
            if v is not None:
                self.edge(("v", v), ("va", v))
                self.edge(("va", v), me)
                p = f.parent(n)
                continue
            if k == "MemberExpr" and n.get("c"):
                fld = n.get("m") or n.get("n")
                b = unwrap(f, n["c"][0])
                bv = lvars(b) if b is not None else None
                if b is not None and b["k"] == "CXXThisExpr":
                    self.edge(("tf", fld), me)
                    self.edge(THIS, me)
                    continue
                if bv is not None and not n.get("arrow"):
                    self.edge(("v", bv), me)
                    self.edge(("vf", bv, fld), me)
                    self.edge(("vf", bv, fld), ("va", bv))
                    continue
            if k == "CXXThisExpr":
                self.edge(THIS, me)
                self.edge(("tfall",), me)
                continue
            if k == "LambdaExpr":
                for c, x in zip(n.get("cap", ()), n.get("c", ()) or ()):
                    if c.get("id") and x is not None:
                        x = f.node(x)
                        xv = lvars(unwrap(f, x) or x)
                        if xv != c["id"]:
                            self.edge(self.e(f, x), ("v", c["id"]))
                            if c.get("byref"):
                                for t in self.lval(f, x):
                                    self.edge(("v", c["id"]), t)
                for l in F.P.lambdas(n):
                    if l.id not in self.lams:
                        self._build(l, ("lret", l.id))
                    self.edge(("lret", l.id), me)
                continue
            if k == "DeclStmt":
                for d in n.get("vars", ()):
                    if d.get("init") is not None:
                        i = f.node(d["init"])
                        t = f.types[d["t"]] if isinstance(d.get("t"), int) else ""
                        tg = [d["id"]] + list(d.get("bind") or ())
                        for x in tg:
                            self.edge(self.e(f, i), ("v", x))
                        alias = t.rstrip().endswith(("&", "*")) and "const " not in t.split("<")[0] or "iterator" in t
                        if alias or d.get("bind"):
                            u = unwrap(f, i)
                            for tt in self.lval(f, u) if u is not None else ():
                                for x in tg:
                                    self.edge(("va", x), tt)
                                    self.edge(("v", x), ("va", x))
                continue
            if k == "ReturnStmt":
                for x in n.get("c", ()) or ():
                    if x is not None:
                        self.edge(self.e(f, x), ret)
                continue
            if k in ("BinaryOperator", "CompoundAssignOperator") and (n.get("op") == "=" or k[0] == "C"):
                l, r = n["c"]
                self.edge(self.e(f, r), me)
                self.edge(self.e(f, l), me)
                self.write(f, l, self.e(f, r))
                continue
            if k == "BinaryOperator" and n.get("op") == ",":
                self.edge(self.e(f, n["c"][1]), me)
                continue
            if k == "ConditionalOperator":
                self.edge(self.e(f, n["c"][0]), CTL)
                self.edge(self.e(f, n["c"][0]), ("ctl", me))
                for x in n["c"][1:]:
                    self.edge(self.e(f, x), me)
                continue
            if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
                for x in n["c"]:
                    self.edge(self.e(f, x), me)
                continue
            if k in ("IfStmt", "WhileStmt", "DoStmt", "SwitchStmt", "ForStmt", "CXXForRangeStmt"):
                continue
            if k in CALLS:
                self.calls.append((f, n))
                continue
            for x in kids(n):
                self.edge(self.e(f, x), me)
        # conditions
        if f.cfg:
            for b in f.cfg["blocks"].values():
                if "cond" in b and b["cond"] in f.nodes:
                    self.edge(self.e(f, f.nodes[b["cond"]]), CTL)

    def finish(self):
        for f, n in self.calls:
            self._call(f, n)
        return self

    def _call(self, f, n):
        F = self.F
        me = self.e(f, n)
        o = call_obj(f, n)
        args = call_args(f, n)
        pm = n.get("pm", "") or ""
        nm = n.get("f") or ""
        fid = n.get("fid")
        callee_e = f.node(n["c"][0]) if n["k"] in ("CallExpr",) and n.get("c") else None
        # call of a lambda of this function
        if fid in self.lams and fid != self.f.id:
            l = F.P.funcs[fid]
            for p, a in zip(l.params, args):
                self.edge(self.e(f, a), ("v", p["id"]))
                self.lamparam.add((self.e(f, a), ("v", p["id"])))
                self.direct[self.e(f, a)].add(me)
                if l.ptype(p).rstrip().endswith("&"):
                    for t in self.lval(f, a):
                        self.edge(("va", p["id"]), t)
                        self.edge(("v", p["id"]), ("va", p["id"]))
            self.edge(("lret", fid), me)
            return
        # lambdas handed to the callee: they see the other arguments and produce part of the result
        lams = []
        for a in args:
            u = unwrap(f, a)
            if u is not None and u["k"] == "LambdaExpr":
                lams += [(a, l) for l in F.P.lambdas(u)]
            else:
                v = lvars(u) if u is not None else None
                d = f.vardef(v) if v else None
                du = unwrap(f, d) if d is not None else None
                if du is not None and du["k"] == "LambdaExpr":
                    lams += [(a, l) for l in F.P.lambdas(du)]
        for a, l in lams:
            for p in l.params:
                for b in args + ([o] if o is not None else []):
                    if b is not a:
                        self.edge(self.e(f, b), ("v", p["id"]))
                        self.lamparam.add((self.e(f, b), ("v", p["id"])))
                        if l.ptype(p).rstrip().endswith("&"):
                            self.edge(("v", p["id"]), ("va", p["id"]))
                            for t in self.lval(f, b):
                                self.edge(("va", p["id"]), t)
            self.edge(self.e(f, a), me)
        s = None
        tg = [t for t in F.P.targets(n) if not t.flag("dep")] if fid else []
        if tg and all(t.kind != "lambda" for t in tg) and F.known(f, n, tg):
            s = set()
            for t in tg:
                ss = F.summary(t)
                if ss is None:
                    s = None
                    break
                s |= ss
        if n["k"] == "UserDefinedLiteral":
            s = None
        if s is not None:
            for src, dst in s:
                a = [self.e(f, o)] if src == THIS and o is not None else \
                    [THIS] if src == THIS else [self.e(f, args[src[1]])] if src[0] == "p" and src[1] < len(args) else []
                for x in a:
                    if dst == RET:
                        self.edge(x, me)
                    elif dst == THIS:
                        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                            self.edge(x, me)
                        elif o is not None:
                            self.write(f, o, x)
                        else:
                            self.edge(x, THIS)
                    elif dst == CTL:
                        self.edge(x, ("cctl", f.id, n["i"]))
                        self.edge(("cctl", f.id, n["i"]), CTL)
                    elif dst[0] == "p" and dst[1] < len(args):
                        self.write(f, args[dst[1]], x)
            return
        ins = list(args) + ([o] if o is not None else [])
        if callee_e is not None and not fid:
            ins.append(callee_e)
        for a in ins:
            self.edge(self.e(f, a), me)
        outs = []
        if o is not None and not n.get("fconst") and not n.get("fstatic") and (short(nm) not in ACCESSORS):
            outs.append(o)
        for a, m in zip(args, pm):
            if m == "n":
                outs.append(a)
        if n["k"] == "CallExpr":
            for a in args:
                u = unwrap(f, a)
                if u is not None and u["k"] in CALLS and re.search(r"iterator<", f.type(u)) and re.search(r"inserter$|^c?r?begin$|^begin$|^end$", short(u.get("f") or "")):
                    outs.append(u)
        for t in outs:
            for a in ins:
                if a is not t:
                    self.write(f, t, self.e(f, a))

    def reach(self, srcs, lam=True):
        seen = set(srcs)
        st = list(srcs)
        while st:
            x = st.pop()
            for y in self.succ.get(x, ()) if lam else self.succ.get(x, set()) | self.direct.get(x, set()):
                if y not in seen and (lam or (x, y) not in self.lamparam):
                    seen.add(y)
                    st.append(y)
        return seen

    def pred(self):
        if not hasattr(self, "_pred"):
            self._pred = defaultdict(set)
            for a, bs in self.succ.items():
                for b in bs:
                    self._pred[b].add(a)
        return self._pred

    def back(self, dsts):
        pr = self.pred()
        seen = set(dsts)
        st = list(dsts)
        while st:
            x = st.pop()
            for y in pr.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen


class Flow:
    def __init__(self, P, opaque=None):
        self.P = P
        self.opaque = opaque      # opaque(f, n, targets) -> True: treat the callee as unknown
        self._g = {}
        self._s = {}
        self._busy = set()

    def known(self, f, n, tg):
        return not (self.opaque and self.opaque(f, n, tg))

    def graph(self, f):
        if f.id not in self._g:
            g = Graph(self, f)
            self._g[f.id] = g
            g.finish()
        return self._g[f.id]

    def summary(self, f):
        """set of (source, sink); sources ("p", i) / THIS, sinks RET, THIS, CTL, ("p", i)"""
        if f.id in self._s:
            return self._s[f.id]
        if f.id in self._busy or not f.nodes:
            if f.d.get("body") is None and not f.flag("defaulted"):
                return None
            return None
        if f.flag("defaulted") or f.d.get("body") is None:
            return None
        self._busy.add(f.id)
        try:
            g = self.graph(f)
        finally:
            self._busy.discard(f.id)
        out = set()
        thissinks = {x for x in list(g.succ) + [y for v in g.succ.values() for y in v] if x == THIS or x[0] == "tf"}
        def sinks(seen, src):
            for x in seen:
                if x == RET:
                    out.add((src, RET))
                elif x == CTL:
                    out.add((src, CTL))
                elif x == THIS or x[0] == "tf":
                    if src != THIS:
                        out.add((src, THIS))
            for j, q in enumerate(f.params):
                t = f.ptype(q)
                if src != ("p", j) and self.mutable(t) and (("v", q["id"]) in seen or any(x[0] == "vf" and x[1] == q["id"] for x in seen)):
                    out.add((src, ("p", j)))
        for i, p in enumerate(f.params):
            sinks(g.reach([("v", p["id"])]), ("p", i))
        if f.kind in ("method", "ctor", "dtor", "conv") and not f.flag("static"):
            sinks(g.reach([THIS] + [x for x in thissinks]), THIS)
        self._s[f.id] = out
        return out

    @staticmethod
    def mutable(t):
        t = t.rstrip()
        if t.endswith("&&"):
            return False
        if t.endswith(("&", "*")):
            return not t.startswith("const ") and " const " not in t.split("<")[0] or t.endswith("*") and False
        return False
