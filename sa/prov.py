"""Provenance of container elements: is everything that can be in a container established by a guard?"""
import re
from .core import *

ADD1 = ("push_back", "emplace_back", "push_front", "emplace_front", "emplace", "insert")


def is_container(t):
    return bool(re.search(r"\b(vector|deque|list|set|unordered_set)<|\bConstLanelets\b|\bConstAreas\b|\bLanelets\b|\bAreas\b", t))


class Prov:
    """pred(facts, key) decides whether the facts establish the element with that key.
    guarded(f, e): every value e can take is established, where it is used, by its container or by all callers."""

    def __init__(self, P, pred, wrappers=(), maxd=8):
        self.P, self.pred, self.wrap, self.maxd = P, pred, set(wrappers), maxd
        self.why = []
        self.sites = 0

    def _strip(self, f, e):
        u = unwrap(f, e)
        while u is not None:
            if u["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr") and len(u.get("c", ())) == 1 \
                    and (u["k"] == "InitListExpr" or short(u.get("f") or "") in self.wrap):
                u = unwrap(f, u["c"][0])
                continue
            return u
        return u

    def facts(self, f, n):
        return self.P.state_at(f, n) if f.cfg else set()

    def guarded(self, f, e, site=None, d=0, busy=frozenset()):
        P = self.P
        u = self._strip(f, e)
        if u is None or d > self.maxd:
            return False
        st = self.facts(f, site if site is not None else u)
        if st is None:
            return True
        k = P.key(f, u)
        if self.pred(st, k):
            self.sites += 1
            return True
        if self.P.holds(f, site if site is not None else u, lambda x: self.pred({x}, k)):
            self.sites += 1
            return True
        # element of a container
        c = self.container_of(f, u)
        if c is not None:
            return self.contents(c[0], c[1], d + 1, busy)
        # parameter
        if u["k"] == "DeclRefExpr" and u.get("d", {}).get("k") == "Parm":
            vid = u["d"]["id"]
            for i, p in enumerate(f.params):
                if p["id"] == vid:
                    return self.from_callers(f, i, self.guarded, d, busy)
        if u["k"] == "DeclRefExpr" and u.get("d", {}).get("k") == "Var":
            h = P._owner(f, u["d"]["id"])
            init = h.vardefs.get(u["d"]["id"]) if h is not None else None
            if h is not None and init is not None and not h.mods.get(u["d"]["id"]):
                return self.guarded(h, init, None, d + 1, busy)
        return False

    def from_callers(self, f, i, fn, d, busy):
        P = self.P
        if (f.id, i) in busy:
            return True
        busy = busy | {(f.id, i)}
        cs = [(g, n) for g, n in P.callsites(f.id) if not g.flag("dep")]
        if not cs:
            return False
        for g, n in cs:
            a = call_args(g, n)
            if i >= len(a) or not fn(g, a[i], n, d + 1, busy):
                return False
        return True

    def container_of(self, f, u):
        """the container expression (func, node) an element expression reads from"""
        P = self.P
        while True:
            u = unwrap(f, u)
            if u["k"] == "DeclRefExpr" and u.get("d", {}).get("k") == "Var":
                h = P._owner(f, u["d"]["id"])
                if h is None or h.mods.get(u["d"]["id"]):
                    return None
                init = h.vardefs.get(u["d"]["id"])
                if init is None:
                    return None
                f, u = h, init
                continue
            if u["k"] in CALLS:
                s = short(u.get("f") or "")
                o = call_obj(f, u)
                if o is not None and s in ("front", "back", "at"):
                    return f, o
                if u.get("op") == "[]":
                    return f, u["c"][1]
                if u.get("op") in ("*", "->"):
                    return self.iter_of(f, u["c"][1])
            if u["k"] == "UnaryOperator" and u["op"] == "*":
                return self.iter_of(f, u["c"][0])
            return None

    def iter_of(self, f, it):
        """container an iterator was taken from"""
        P = self.P
        for g, x in P.slice(f, it):
            if x["k"] in CALLS and short(x.get("f") or "") in ("begin", "cbegin", "rbegin"):
                o = call_obj(g, x) or (call_args(g, x) or [None])[0]
                if o is not None:
                    return self.through_range(g, o)
        return None

    def through_range(self, g, o):
        P = self.P
        o = unwrap(g, o)
        while o["k"] == "DeclRefExpr" and o.get("d", {}).get("n", "").startswith("__range"):
            h = P._owner(g, o["d"]["id"])
            g, o = h, unwrap(h, h.vardefs[o["d"]["id"]])
        return g, o

    def contents(self, f, e, d=0, busy=frozenset()):
        """is everything in the container expression e established?"""
        P = self.P
        u = unwrap(f, e)
        if u is None or d > self.maxd:
            return False
        if u["k"] in CALLS:
            for g in P.targets(u):
                if not g.cfg:
                    return False
                for r, _ in P.returns(g):
                    if not r.get("c") or not self.contents(g, r["c"][0], d + 1, busy):
                        return False
            return bool(P.targets(u))
        if u["k"] in ("InitListExpr",) or (u["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr")):
            cs = [f.node(x) for x in u.get("c", ())]
            if len(cs) == 1 and (is_container(f.type(cs[0])) or cs[0]["k"] in ("InitListExpr", "CXXStdInitializerListExpr")):
                return self.contents(f, cs[0], d + 1, busy)
            return all(self.guarded(f, x, u, d + 1, busy) for x in cs)
        if u["k"] == "CXXStdInitializerListExpr":
            return self.contents(f, u["c"][0], d + 1, busy)
        if u["k"] == "DeclRefExpr" and u.get("d", {}).get("k") in ("Var", "Parm"):
            vid = u["d"]["id"]
            h = P._owner(f, vid) or f
            if (h.id, vid) in busy:
                return True
            b2 = busy | {(h.id, vid)}
            if not self.populated(h, vid, d, b2):
                return False
            for i, p in enumerate(h.params):
                if p["id"] == vid and h.kind != "lambda":
                    return self.from_callers(h, i, lambda g, a, n, dd, bb: self.contents(g, a, dd, bb), d, busy)
            init = h.vardefs.get(vid)
            if init is not None and not is_default_construct(unwrap(h, init)):
                i = unwrap(h, init)
                if i["k"] in ("CXXConstructExpr",) and not i.get("c"):
                    return True
                return self.contents(h, init, d + 1, b2)
            return True
        return False

    def fill_sites(self, h, vid):
        """(func, call node) of every operation on the variable that can add elements, incl. nested lambdas"""
        P = self.P
        fs = [h]
        i = 0
        while i < len(fs):
            for n in fs[i].all("LambdaExpr"):
                fs += [l for l in P.lambdas(n) if l not in fs]
            i += 1
        return fs

    def populated(self, h, vid, d, busy):
        P = self.P
        for g in self.fill_sites(h, vid):
            if g.flag("dep"):
                continue
            for n in g.calls():
                s = short(n.get("f") or "")
                o = call_obj(g, n)
                args = call_args(g, n)
                on = o is not None and root_var(g, o) == vid and unwrap(g, o)["k"] == "DeclRefExpr"
                if on and s in ADD1:
                    if s == "insert" and len(args) == 3:
                        c = self.iter_of(g, args[1])
                        if c is None or not self.contents(c[0], c[1], d + 1, busy):
                            self.why.append(g.loc(n))
                            return False
                        continue
                    a = args[-1] if args else None
                    if a is None or not self.guarded(g, a, n, d + 1, busy):
                        self.why.append(g.loc(n))
                        return False
                    continue
                if on and n.get("op") == "=":
                    if not self.contents(g, n["c"][2], d + 1, busy):
                        self.why.append(g.loc(n))
                        return False
                    continue
                if on and n.get("op") == "[]" or on and s in ("front", "back", "at", "begin", "data"):
                    continue
                # back_inserter(v) into an algorithm
                for j, a in enumerate(args):
                    ua = unwrap(g, a)
                    if ua["k"] in CALLS and short(ua.get("f") or "") in ("back_inserter", "inserter", "front_inserter") \
                            and root_var(g, call_args(g, ua)[0]) == vid:
                        if not self.algorithm(g, n, s, args, j, d, busy):
                            self.why.append(g.loc(n))
                            return False
                        continue
                    # handed to another function that may fill it
                    if ua["k"] == "DeclRefExpr" and ua.get("d", {}).get("id") == vid:
                        for t in P.targets(n):
                            if j < len(t.params) and t.cfg:
                                pt = t.ptype(t.params[j])
                                if pt.endswith("&") and not pt.startswith("const ") and "&&" not in pt:
                                    if (t.id, t.params[j]["id"]) in busy:
                                        continue
                                    if not self.populated(t, t.params[j]["id"], d + 1, busy | {(t.id, t.params[j]["id"])}):
                                        return False
        return True

    def algorithm(self, g, n, s, args, j, d, busy):
        P = self.P
        src = self.iter_of(g, args[0])
        if s in ("copy_if", "remove_copy_if"):
            ls = P.lambdas(unwrap(g, args[-1])) if unwrap(g, args[-1])["k"] == "LambdaExpr" else []
            if not ls:
                for x in g.node(args[-1]), unwrap(g, args[-1]):
                    if x["k"] == "DeclRefExpr":
                        h = P._owner(g, x["d"]["id"])
                        init = h.vardefs.get(x["d"]["id"]) if h else None
                        if init is not None and unwrap(h, init)["k"] == "LambdaExpr":
                            ls = P.lambdas(unwrap(h, init))
            for l in ls:
                if not l.params or l.flag("dep"):
                    continue
                k = "v:" + l.params[0]["id"]
                if P.returns_imply(l, s == "copy_if", lambda x: self.pred({x}, k)):
                    self.sites += 1
                    return True
        if s == "transform":
            ua = unwrap(g, args[-1])
            ls = P.lambdas(ua) if ua["k"] == "LambdaExpr" else []
            ls = [l for l in ls if not l.flag("dep")]
            return bool(ls) and all(r.get("c") and self.guarded(l, r["c"][0], r, d + 1, busy) for l in ls for r, _ in P.returns(l))
        if s in ("copy", "copy_if", "move", "copy_n") and src is not None:
            return self.contents(src[0], src[1], d + 1, busy)
        return False
