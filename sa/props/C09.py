"""C09: geometry derived from bounds or rings is dropped whenever they change; a user's centerline is kept."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from ..feeds import Feeds, last
from .V02 import wk

ATOMIC_W = {"atomic_store_explicit", "atomic_store", "atomic_exchange", "atomic_exchange_explicit", "atomic_compare_exchange_strong", "atomic_compare_exchange_weak",
            "atomic_compare_exchange_strong_explicit", "atomic_compare_exchange_weak_explicit"}
REFRESH = ("lanelet::LaneletData", "lanelet::AreaData")


def field(f, n):
    """the member of *this (or of another object) an expression denotes"""
    n = unwrap(f, n)
    while n["k"] in ("UnaryOperator", "ArraySubscriptExpr") and n.get("c"):
        n = unwrap(f, n["c"][0])
    if n["k"] == "MemberExpr":
        return n["m"]
    if n["k"] in CALLS and n.get("op") in ("*", "->", "[]"):
        o = call_obj(f, n)
        return field(f, o if o is not None else f.node(n["c"][1]))
    return None


class Run:
    def __init__(self, c):
        self.c = c
        self.P = P = c.program("core", "io", "routing", "python", "matching", "validation", "projection", "traffic_rules", "wit")
        self.lib = [f for f in P.lib() if f.cfg and not f.flag("dep")]

    def rec(self, q):
        r = self.P.recbyname.get(q)
        r = r[0] if isinstance(r, list) and r else r
        if not r:
            raise AnalysisBroken("no class %s" % q)
        return r

    def writes(self, f):
        """(node, field, kind, value node) of every modification of a member: kind in set/null/other"""
        for n in f.nodes.values():
            k = n["k"]
            if k == "BinaryOperator" and n.get("op") == "=":
                m = field(f, n["c"][0])
                if m:
                    yield n, m, "set", f.node(n["c"][1])
            elif k == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["c"]) == 3:
                m = field(f, n["c"][1])
                if m:
                    yield n, m, "null" if self.isnull(f, n["c"][2]) else "set", f.node(n["c"][2])
            elif k in CALLS:
                nm = last(n.get("f", ""))
                a = call_args(f, n)
                if nm in ATOMIC_W and a:
                    m = field(f, a[0])
                    v = a[2] if "compare" in nm and len(a) > 2 else a[1] if len(a) > 1 else None
                    if m and v is not None:
                        yield n, m, "null" if self.isnull(f, v) else "set", v
                    continue
                if nm.startswith("atomic_load"):
                    continue
                o = call_obj(f, n)
                if o is not None and not n.get("fconst") and not n.get("fstatic") and n.get("op") != "=":
                    m = field(f, o)
                    if m and nm == "reset" and not a:
                        yield n, m, "null", None
                    elif m and nm not in ACCESSORS | {"get", "lock", "operator->", "operator*"} and unwrap(f, o)["k"] == "MemberExpr":
                        if nm == "reset" or nm in ("swap", "push_back", "emplace_back", "insert", "emplace", "erase", "clear", "pop_back", "resize", "assign"):
                            yield n, m, "set", (a[0] if a else None)
                for x, pm in zip(a, n.get("pm", "")):
                    if pm == "n" and nm not in ("move", "forward", "addressof") and unwrap(f, x)["k"] == "MemberExpr" and not nm.startswith("atomic_"):
                        m = field(f, x)
                        if m and self.nonconst(f, x):
                            yield n, m, "set", None

    def nonconst(self, f, x):
        t = f.type(unwrap(f, x))
        return not t.startswith("const ")

    def isnull(self, f, n):
        n = unwrap(f, n)
        for _ in range(6):
            if n["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
                return True
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXScalarValueInitExpr", "InitListExpr", "CXXBindTemporaryExpr",
                          "MaterializeTemporaryExpr"):
                c = [x for x in n.get("c", ()) if x is not None]
                if not c:
                    return "shared_ptr" in f.type(n) or "optional" in f.type(n) or "unique_ptr" in f.type(n)
                if len(c) != 1:
                    return False
                n = unwrap(f, c[0])
                continue
            if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") == "Var":
                vid = n["d"]["id"]
                i = f.vardef(vid)
                changed = any((x["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and x.get("op") == "=" and
                               unwrap(f, x["c"][0] if x["k"] == "BinaryOperator" else x["c"][1]).get("d", {}).get("id") == vid) or
                              (x["k"] in CALLS and last(x.get("f", "")) in ("reset", "swap") and call_obj(f, x) is not None and
                               unwrap(f, call_obj(f, x)).get("d", {}).get("id") == vid) for x in f.nodes.values())
                if isinstance(i, dict) and not changed:
                    n = unwrap(f, i)
                    continue
            return False
        return False

    # ------------------------------------------------------------ which members are derived from which
    def classes(self):
        """class -> (lazy caches, eager caches, sources)"""
        out = {}
        for q in REFRESH + ("lanelet::LaneletSequenceData",):
            r = self.rec(q)
            names = ["%s::%s" % (q, last(x["n"])) for x in r["fields"]]
            mut = {"%s::%s" % (q, last(x["n"])) for x in r["fields"] if x.get("mutable")}
            meth = [f for f in self.lib if f.cls == q or f.name.rsplit("::", 1)[0] == q]
            deps = {}
            for f in meth:
                if f.kind == "ctor":
                    continue
                for n, m, k, v in self.writes(f):
                    if m in names and k == "set" and v is not None:
                        d = self.uses(f, v, q) - {m}
                        if d:
                            deps.setdefault(m, set()).update(d)
            for f in meth:     # a mutable member is filled from what the function that fills it reads
                if any(m in mut for n, m, k, v in self.writes(f)):
                    pass
            lazy = {m for m in names if m in mut}
            eager = {m for m in deps if m not in lazy and deps[m] & set(names)}
            out[q] = (lazy, eager, deps, names, meth)
        return out

    def uses(self, f, v, q, depth=0, seen=()):
        """members of class q an expression is computed from"""
        P, out = self.P, set()
        for y in wk(f, unwrap(f, v)):
            if y["k"] == "MemberExpr" and y["m"].startswith(q + "::") and y["m"].count("::") == q.count("::") + 1 and not y.get("fid"):
                out.add(y["m"])
            elif y["k"] == "DeclRefExpr" and y.get("d", {}).get("k") == "Var" and y["d"]["id"] not in seen:
                vid = y["d"]["id"]
                i = f.vardef(vid)
                if isinstance(i, dict):
                    out |= self.uses(f, i, q, depth, seen + (vid,))
                for n in f.nodes.values():
                    if (n["k"] == "BinaryOperator" or n["k"] == "CXXOperatorCallExpr") and n.get("op") == "=":
                        l, r = (n["c"][0], n["c"][1]) if n["k"] == "BinaryOperator" else (n["c"][1], n["c"][2])
                        if unwrap(f, l).get("d", {}).get("id") == vid:
                            out |= self.uses(f, r, q, depth, seen + (vid,))
            if y["k"] in CALLS and depth < 3:
                for g in P.targets(y):
                    if g.cls == q or g.name.rsplit("::", 1)[0] == q:
                        for z in g.nodes.values():
                            if z["k"] == "MemberExpr" and z["m"].startswith(q + "::") and not z.get("fid"):
                                out.add(z["m"])
                            elif z["k"] in CALLS:
                                for h in P.targets(z):
                                    if h.id != g.id and (h.cls == q):
                                        out |= {w["m"] for w in h.nodes.values() if w["k"] == "MemberExpr" and w["m"].startswith(q + "::") and not w.get("fid")}
        return out

    # ------------------------------------------------------------ rules
    def run(self):
        c, P = self.c, self.P
        C = self.classes()
        self.C = C
        c.rule("C09.drop", "every function that changes a bound or ring drops or recomputes each member derived from it, on every path", 4)
        c.rule("C09.escape", "no function hands out mutable access to a bound or ring the derived members would not notice", 2)
        c.rule("C09.guard", "a bound or ring is replaced unless the new one equals the old one", 2)
        c.rule("C09.recompute", "derived members are computed from all the current bounds or rings they depend on", 4)
        c.rule("C09.custom", "a centerline set by the user is stored as such, is not dropped by a cache reset nor overwritten by a computed one", 3)
        c.rule("C09.computed", "a computed centerline is never taken for one set by the user", 1)
        c.rule("C09.forward", "the operations of handles that change bounds or reset caches reach the shared data", 4)
        c.rule("C09.view", "a value cached per point is compared with its source on every use", 1)
        drops = {}        # (class, cache) -> functions that null or refresh it on every path (except custom)
        for q, (lazy, eager, deps, names, meth) in C.items():
            if q == "lanelet::LaneletSequenceData":
                continue
            for K in sorted(lazy | eager):
                drops[K] = self.droppers(q, K, meth)
        for q, (lazy, eager, deps, names, meth) in C.items():
            caches = lazy | eager
            for K in sorted(caches):
                src = {s for s in self.sourceof(q, K, meth, deps) if s not in caches}
                c.analysed["sources of " + K] = ", ".join(sorted(last(s) for s in src)) or "-"
                if q == "lanelet::LaneletSequenceData":
                    for s in sorted(src):
                        fl = next(x for x in self.rec(q)["fields"] if last(x["n"]) == last(s))
                        c.ob("C09.drop", self.rec(q)["_types"][fl["t"]].startswith("const "), "%s" % q, "%s:%s" % (s, K), "%s is cached but %s, from which it is computed, can change" % (K, s))
                    continue
                if not src:
                    filled = any(m == K and k == "set" for f in meth if f.kind != "ctor" for n, m, k, v in self.writes(f))
                    if filled:
                        c.ob("C09.recompute", False, q, "%s:sources" % K, "the cached member %s is not computed from any bound or ring" % K)
                    continue
                for s in sorted(src):
                    self.escape(q, s)
                    for f in self.lib:
                        if f.kind in ("ctor", "dtor") and f.name.rsplit("::", 1)[0] == q:
                            continue
                        ws = [(n, v) for n, m, k, v in self.writes(f) if m == s]
                        for n, v in ws:
                            self.dropped(f, n, s, K, K in lazy, drops[K])
                            self.guarded(f, n, s)
                for f in meth:
                    if f.kind == "ctor" and K in eager:
                        self.dropped(f, None, "the constructor's arguments", K, False, drops[K])
        self.custom(C)
        self.forward()
        self.point()

    def sourceof(self, q, K, meth, deps):
        src = set(deps.get(K, ()))
        # what the functions that fill K read
        return src

    def droppers(self, q, K, meth):
        """functions of the class after which K is dropped or fresh on every path, except where it is known to be the user's"""
        P = self.P
        out = {}
        ch = True
        while ch:
            ch = False
            for f in meth:
                if f.kind in ("ctor", "dtor") or f.id in out:
                    continue
                stop = lambda n, f=f: self.isdrop(f, n, K, out)
                if not any(stop(n) for n in f.nodes.values()):
                    continue
                if not escape(P, f, None, stop, self.userset):
                    out[f.id] = f
                    ch = True
        return out

    def userset(self, facts):
        """edge on which the centerline is known to be the user's"""
        for x in facts or ():
            if x[0] == "true" and x[2] and re.search(r"[cC]ustomCenterline", x[1]):
                return True
            if x[0] == "eq" and not x[2] and "InvalId" in x[1] and "enterline" in x[1]:
                return True
        return False

    def isdrop(self, f, n, K, drops):
        if n["k"] in CALLS or n["k"] == "BinaryOperator":
            for m, k, v in self.w(f).get(n["i"], ()):
                if m == K and (k == "null" or k == "set" and v is not None and self.C and self.uses(f, v, K.rsplit("::", 1)[0])):
                    return True
        if n["k"] in CALLS:
            return any(g.id in drops for g in self.P.targets(n))
        return False

    def w(self, f):
        r = getattr(f, "_c09w", None)
        if r is None:
            r = {}
            for n, m, k, v in self.writes(f):
                r.setdefault(n["i"], []).append((m, k, v))
            f._c09w = r
        return r

    def dropped(self, f, n, s, K, lazy, drops):
        """the derived member is dropped on every path through the write n"""
        P, c = self.P, self.c
        stop = lambda x: self.isdrop(f, x, K, drops)
        after = escape(P, f, n, stop, self.userset)
        ok = not after
        why = "%s is still the old one after %s changed" % (last(K), last(s))
        if not ok and lazy and n is not None:
            # dropped before, and not computed in between
            fills = lambda x: x["k"] in CALLS and any(self.fills(g, K) for g in P.targets(x))
            before = self.reaches_without(f, n, stop)
            ok = not before and not self.between(f, stop, n, fills)
        c.ob("C09.drop", ok, f.loc(n) if n is not None else f.loc(), "%s:%s:%s" % (f.name, last(s), last(K)), "%s: %s" % (f.name, why))

    def fills(self, g, K, d=0):
        if any(m == K and k == "set" for n, m, k, v in self.writes(g)):
            return True
        return d < 2 and any(self.fills(h, K, d + 1) for n in g.calls() for h in self.P.targets(n) if h.name.startswith("lanelet::") and h.id != g.id)

    def reaches_without(self, f, n, stop):
        """path from the entry to n that passes no stop"""
        P, B = self.P, f.cfg["blocks"]
        w = P.where(f, n)
        if w is None:
            return True
        seen, st = set(), [f.cfg["entry"]]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            es = B[b]["e"]
            hit = False
            for i, e in enumerate(es):
                if b == w[0] and i > w[1]:
                    break
                x = f.nodes.get(e) if isinstance(e, int) else None
                if x is not None and stop(x) and x["i"] != n["i"]:
                    hit = True
                    break
                if b == w[0] and i == w[1]:
                    return True
            if hit:
                continue
            for si, s in enumerate(B[b]["s"]):
                if s is None or self.userset(edge_facts(P, f, b, si)):
                    continue
                st.append(s)
        return False

    def between(self, f, stop, n, fills):
        """a fill between a drop and n"""
        P, B = self.P, f.cfg["blocks"]
        w = P.where(f, n)
        for b, blk in B.items():
            for i, e in enumerate(blk["e"]):
                x = f.nodes.get(e) if isinstance(e, int) else None
                if x is not None and fills(x) and not stop(x):
                    if b == w[0] and i < w[1]:
                        # drop before it in the same block does not help
                        if not any(stop(f.nodes[y]) for y in blk["e"][i + 1:w[1]] if isinstance(y, int) and y in f.nodes):
                            return True
        return False

    def guarded(self, f, n, s):
        """the write is left out only if old and new value are equal"""
        P, c = self.P, self.c
        esc = escape(P, f, None, lambda x: x["i"] == n["i"], lambda facts: self.same(f, facts, s))
        c.ob("C09.guard", not esc, f.loc(n), "%s:%s" % (f.name, last(s)), "%s does not store the new %s although it may differ from the old one" % (f.name, last(s)))

    def same(self, f, facts, s):
        for x in facts or ():
            if x[0] == "eq" and x[2]:
                a, b = x[1].split("==", 1) if "==" in x[1] else (x[1], "")
                for u, v in ((a, b), (b, a)):
                    if re.match(r"(this\.|\*?this->)?%s$" % re.escape(last(s)), u) and re.match(r"v:\w+#[\d:]+$", v):
                        return True
        return False

    def escape(self, q, s):
        c = self.c
        key = (q, s)
        if key in getattr(self, "_esc", set()):
            return
        self._esc = getattr(self, "_esc", set()) | {key}
        cls = [q] + [x for x in ("lanelet::Lanelet", "lanelet::ConstLanelet", "lanelet::Area", "lanelet::ConstArea")]
        r = next(x for x in self.rec(q)["fields"] if last(x["n"]) == last(s))
        if r.get("acc") is not None:
            c.ob("C09.escape", r["acc"] != "public", q, "%s:access" % s, "%s can be changed by anyone" % s)
        for f in self.lib:
            if f.cls not in cls:
                continue
            rt = f.d.get("ret") if isinstance(f.d.get("ret"), str) else f.type({"t": f.d["ret"]}) if "ret" in f.d else ""
            for n in f.all("ReturnStmt"):
                e = n["c"][0] if n.get("c") else None
                if e is None:
                    continue
                m = field(f, e)
                t = self.rettype(f)
                if m == s:
                    c.ob("C09.escape", not (("&" in t or t.rstrip().endswith("*")) and not t.startswith("const ")), f.loc(n), "%s:%s" % (f.name, last(s)), "%s returns %s, through which %s can be replaced without dropping what is derived from it" % (f.name, t, last(s)))

    def rettype(self, f):
        r = f.d.get("rt", f.d.get("ret"))
        if isinstance(r, int):
            return f.type({"t": r})
        return r or ""

    # ------------------------------------------------------------ the user's centerline
    def custom(self, C):
        P, c = self.P, self.c
        q = "lanelet::LaneletData"
        K = q + "::centerline_"
        lazy, eager, deps, names, meth = C[q]
        K = next((m for m in lazy if "enterline" in m), None)
        if K is None:
            raise AnalysisBroken("the cached centerline of LaneletData")
        setc = [f for f in meth if f.short == "setCenterline"]
        has = [f for f in meth if f.short == "hasCustomCenterline"]
        if not setc or not has:
            raise AnalysisBroken("setCenterline / hasCustomCenterline")
        for f in self.lib:
            for n, m, k, v in self.writes(f):
                if m != K:
                    continue
                if f in setc:
                    ids = {y["d"]["id"] for y in wk(f, unwrap(f, v)) if y["k"] == "DeclRefExpr"} if v is not None else set()
                    vs = set(ids)
                    for i in list(ids):
                        d = f.vardef(i)
                        if isinstance(d, dict):
                            vs |= {y["d"]["id"] for y in wk(f, unwrap(f, d)) if y["k"] == "DeclRefExpr"}
                    c.ob("C09.custom", f.params[0]["id"] in vs, f.loc(n), "%s:store" % f.name, "setCenterline does not store the centerline it is given")
                elif k == "null":
                    # only where it is known not to be the user's
                    st = P.state_at(f, n) or ()
                    ok = any(x[0] == "true" and not x[2] and re.search("[cC]ustomCenterline", x[1]) for x in st) or any(x[0] == "eq" and x[2] and "InvalId" in x[1] for x in st)
                    c.ob("C09.custom", ok, f.loc(n), "%s:reset" % f.name, "%s drops the centerline even if the user has set it" % f.name)
                else:
                    st = P.state_at(f, n) or ()
                    ok = any((x[0] == "true" and not x[2] or x[0] == "eq" and x[2] and "null" in x[1]) and re.search("centerline|cached|cache|line", x[1]) and "ustom" not in x[1] for x in st)
                    ok = ok or any(x[0] == "true" and not x[2] and re.search("[cC]ustomCenterline", x[1]) for x in st)
                    nm = last(n.get("f", ""))
                    c.ob("C09.custom", ok or "compare_exchange" in nm, f.loc(n), "%s:compute" % f.name, "%s replaces the centerline although one may be set by the user" % f.name)
                    if v is not None:
                        d = self.uses(f, v, q)
                        want = {q + "::leftBound_", q + "::rightBound_"} & set(names)
                        c.ob("C09.recompute", want <= d, f.loc(n), "%s:%s" % (f.name, last(K)), "the centerline is computed from %s only" % sorted(last(x) for x in d))
                        self.computed(f, v)
        for f in setc:
            ws = [n for n, m, k, v in self.writes(f) if m == K and k == "set"]
            esc = not ws or escape(P, f, None, lambda x: any(x["i"] == n["i"] for n in ws))
            c.ob("C09.custom", not esc, f.loc(), "%s:always" % f.name, "setCenterline does not always store the centerline")
        # the test for a user's centerline
        for f in has:
            mem = {y["m"] for g in [f] for y in g.nodes.values() if y["k"] == "MemberExpr" and not y.get("fid")} & set(names)
            txt = [y for y in f.nodes.values() if y["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and y.get("op") in ("!=", "==")]
            idt = [y for y in txt if any(z["k"] in CALLS and last(z.get("f", "")) == "id" for z in wk(f, y))]
            byid = bool(idt) and K in mem
            flag = any(re.search("ustom", m) for m in mem)
            c.ob("C09.computed", byid or flag, f.loc(), "%s:test" % f.name, "hasCustomCenterline does not tell a computed centerline from one set by the user")
            self.byid = byid
            if byid:
                for r in [n for n in f.all("ReturnStmt")]:
                    t = self.polar(f, f.node(r["c"][0]), idt)
                    c.ob("C09.computed", t, f.loc(r), "%s:polarity" % f.name, "hasCustomCenterline returns true for a centerline without an id")
        # eager members
        for q2, (lz, eg, dp, nm, mt) in C.items():
            if q2 == "lanelet::LaneletSequenceData":
                for f in mt:
                    for n, m, k, v in self.writes(f):
                        if m in lz and k == "set" and v is not None:
                            want = dp.get(m, set())
                            other = {x for x in want if re.search("ound|anelets", x)}
                            c.ob("C09.recompute", bool(other), f.loc(n), "%s:%s" % (f.name, last(m)), "%s is not computed from the lanelets of the sequence" % last(m))
                continue
            for m in eg:
                stem = lambda x: re.sub(r"(Bounds?|Polygons?)", "", last(x)).rstrip("_s")
                src = {x for x in dp[m] if x not in eg | lz}
                cand = {x for x in nm if x not in eg | lz and stem(x) == stem(m)}
                f0 = next((f for f in mt for n, y, k, v in self.writes(f) if y == m), mt[0])
                if cand:
                    c.ob("C09.recompute", src == cand, f0.loc(), "%s:source" % m, "%s is computed from %s" % (last(m), sorted(last(x) for x in src)))

    def polar(self, f, n, idt):
        """the expression is true only if the id comparison says the id is valid"""
        n = unwrap(f, n)
        if n["k"] == "BinaryOperator" and n.get("op") == "&&":
            return self.polar(f, n["c"][0], idt) or self.polar(f, n["c"][1], idt)
        if n["k"] == "UnaryOperator" and n.get("op") == "!":
            m = unwrap(f, n["c"][0])
            return m["i"] in {x["i"] for x in idt} and m.get("op") == "=="
        if n["k"] == "CXXBoolLiteralExpr" or n.get("ev") == "0":
            return True
        if n["k"] == "ConditionalOperator":
            return self.polar(f, n["c"][1], idt) and self.polar(f, n["c"][2], idt)
        if n["k"] == "DeclRefExpr" and isinstance(f.vardef(n.get("d", {}).get("id")), dict):
            return self.polar(f, f.vardef(n["d"]["id"]), idt)
        return n["i"] in {x["i"] for x in idt} and n.get("op") == "!="

    def computed(self, f, v, seen=()):
        """the computed centerline has no id"""
        P, c = self.P, self.c
        if not getattr(self, "_pend", None):
            self._pend = set()
        calls = []
        for y in wk(f, unwrap(f, v)):
            if y["k"] in CALLS:
                calls.append((f, y))
            elif y["k"] == "DeclRefExpr" and y.get("d", {}).get("k") == "Var":
                vid = y["d"]["id"]
                for n in f.nodes.values():
                    if n["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=":
                        l, r = (n["c"][0], n["c"][1]) if n["k"] == "BinaryOperator" else (n["c"][1], n["c"][2])
                        if unwrap(f, l).get("d", {}).get("id") == vid:
                            calls += [(f, z) for z in wk(f, unwrap(f, r)) if z["k"] in CALLS]
                i = f.vardef(vid)
                if isinstance(i, dict):
                    calls += [(f, z) for z in wk(f, unwrap(f, i)) if z["k"] in CALLS]
        for g, y in calls:
            for h in P.targets(y):
                if h.id in self._pend or not h.loc().startswith("lanelet2_core/src"):
                    continue
                self._pend.add(h.id)
                for z in h.nodes.values():
                    if z["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and re.search(r"^lanelet::(Const)?LineString3d::", z.get("f", "")) and not z.get("copy") and not z.get("move"):
                        a = call_args(h, z)
                        if not a or unwrap(h, a[0])["k"] == "CXXDefaultArgExpr":
                            ok = True
                        elif re.search(r"LineString", h.type(unwrap(h, a[0]))):
                            continue
                        else:
                            w = unwrap(h, a[0])
                            ok = w.get("ev") == "0" or w.get("v") == "0" or w["k"] == "DeclRefExpr" and last(str(w.get("d", {}).get("n"))) == "InvalId"
                        c.ob("C09.computed", ok, h.loc(z), "%s:id" % h.name, "a computed centerline gets an id, so that it passes for one set by the user")

    # ------------------------------------------------------------ handles
    def forward(self):
        P, c = self.P, self.c
        want = {"lanelet::Lanelet": {"setLeftBound": {"setLeftBound", "setRightBound"}, "setRightBound": {"setLeftBound", "setRightBound"}, "setCenterline": {"setCenterline"}},
                "lanelet::ConstLanelet": {"resetCache": {"resetCache"}},
                "lanelet::Area": {"setOuterBound": {"setOuterBound"}, "setInnerBounds": {"setInnerBounds"}}}
        for q, ms in want.items():
            for m, to in ms.items():
                fs = [f for f in self.lib if f.name == "%s::%s" % (q, m)]
                if not fs:
                    raise AnalysisBroken("%s::%s" % (q, m))
                for f in fs:
                    stop = lambda x: x["k"] in CALLS and re.match(r"lanelet::(Lanelet|Area)Data::", x.get("f") or "") is not None and last(x["f"]) in to
                    ok = not escape(P, f, None, stop)
                    c.ob("C09.forward", ok, f.loc(), f.name, "%s does not always reach the shared data" % f.name)
        for f in [f for f in self.lib if f.name == "lanelet::LaneletSequence::resetCache"]:
            sets = [n for n in f.nodes.values() if n["k"] in CALLS and (n.get("op") == "=" or last(n.get("f", "")) in ("reset", "swap"))]
            sets = [n for n in sets if any(y["k"] == "MemberExpr" and last(y["m"]) == "data_" for y in wk(f, n))]
            ok = any(any(y["k"] in CALLS and (last(y.get("f", "")) in ("make_shared", "LaneletSequenceData") or y["k"] == "CXXNewExpr") for y in wk(f, n)) for n in sets)
            ok = ok and not escape(P, f, None, lambda x: x["i"] in {n["i"] for n in sets})
            ls = any(y["k"] in CALLS and last(y.get("f", "")) == "lanelets" for y in f.nodes.values())
            c.ob("C09.forward", ok and ls, f.loc(), f.name, "resetCache of a lanelet sequence keeps what was computed before")

    def point(self):
        """values cached in points"""
        P, c = self.P, self.c
        r = self.rec("lanelet::PointData")
        mut = {last(x["n"]) for x in r["fields"] if x.get("mutable")}
        for f in self.lib:
            if f.cls != "lanelet::PointData" or f.kind == "ctor":
                continue
            for n in f.all("ReturnStmt"):
                m = field(f, n["c"][0]) if n.get("c") and n["c"][0] is not None else None
                if not m or last(m) not in mut:
                    continue

                def fresh(facts, m=last(m)):
                    for x in facts or ():
                        same = x[0] == "eq" and x[2] or x[0] == "true" and (x[2] and "==" in x[1] or not x[2] and "!=" in x[1])
                        if same and m in x[1] and re.search(r"\bpoint\b", x[1]) and not re.search(r"\.(x|y|z)\(\)", x[1]):
                            return True
                    return False
                sets = {k["i"] for k, mm, kd, v in self.writes(f) if last(mm) == last(m)}
                ok = not escape(P, f, None, lambda x: x["i"] in sets, fresh)
                c.ob("C09.view", ok, f.loc(n), "%s:%s" % (f.name, last(m)), "%s returns %s without comparing it with the point" % (f.name, last(m)))


def run(c):
    Run(c).run()
