"""Shared analyses of the routing package: relation masks of filtered graph views, context sensitive traversal."""
import re
from .core import *
from .facts import AnalysisBroken

REL = "lanelet::routing::RelationType"


def relations(P):
    e = P.enums.get(REL)
    if not e:
        raise AnalysisBroken("relation enumeration not found")
    return {n: int(v) for n, v in e["vals"]}


def relset(P, mask):
    r = relations(P)
    return frozenset(n for n, v in r.items() if v and (mask & v))


def is_view(t):
    return "filtered_graph" in t and "EdgeCostFilter" in t


class Traversal:
    """context sensitive walk over everything a query reaches inside the given files.
    ctx = list of (key, polarity) facts about the query's parameters; emits (event, ctx) pairs"""

    def __init__(self, P, entry, inscope, depth=8):
        self.P, self.entry, self.inscope, self.maxd = P, entry, inscope, depth
        self.events = []
        self.seen = set()
        sub = {}
        for i, p in enumerate(entry.params):
            sub[p["id"]] = f"p{i}"
        self.flags = {f"p{i}" for i, p in enumerate(entry.params)}
        self.visit(entry, sub, frozenset(), 0)

    def ctx_at(self, f, n, sub):
        """facts at n about entry parameters; None when contradictory"""
        st = self.P.state_at(f, n) if f.cfg else set()
        if st is None:
            return None
        out = set()
        for kind, key, pol in st:
            if kind != "true":
                continue
            for a, b in sub.items():
                if "." in a and key == "v:" + a:
                    key = b
            k = subst(key, {"v:" + a: b for a, b in sub.items() if a != "this"})
            if k in ("#0", "#1"):
                if (k == "#1") != pol:
                    return None
                continue
            if re.fullmatch(r"p\d+(\.\w+)?", k):
                out.add((k, pol))
        return out

    def visit(self, f, sub, ctx, d):
        key = (f.id, tuple(sorted(sub.items())), ctx)
        if key in self.seen or d > self.maxd:
            return
        self.seen.add(key)
        P = self.P
        for n in f.nodes.values():
            if not (n["k"] in CALLS or n["k"] == "LambdaExpr"):
                continue
            tg = [t for t in P.targets(n) if self.inscope(t)] if n.get("fid") else []
            lam = P.lambdas(n)
            c = self.ctx_at(f, n, sub)
            if c is None:
                continue
            nctx = ctx | frozenset(c)
            if any((k, not p) in nctx for k, p in nctx):
                continue
            if n.get("f"):
                self.events.append((f, n, sub, nctx))
            for t in tg:
                if t.kind == "lambda":
                    continue  # visited where it is created, with the captured variables resolved
                mp = {}
                for p, a in zip(t.params, call_args(f, n)):
                    mp[p["id"]] = P.key(f, a, sub)
                    if REL in f.type(a):
                        vs = mask_values(P, f, a, sub)
                        if len(vs) == 1 and vs[0][0] is not None:
                            mp[p["id"]] = f"#{vs[0][0]}"
                    il = unwrap(f, a)
                    while il is not None and il["k"] in ("MaterializeTemporaryExpr", "CXXFunctionalCastExpr") and il.get("c"):
                        il = unwrap(f, il["c"][0])
                    rec = P.recbyname.get(re.sub(r"^const | ?[&*]$", "", t.ptype(p)).strip("& "), ())
                    if il is not None and il["k"] == "InitListExpr" and rec:
                        for fd, x in zip(rec[0]["fields"], il["c"]):
                            mp[p["id"] + "." + fd["n"]] = P.key(f, x, sub)
                self.visit(t, mp, nctx, d + 1)
            for l in lam:
                self.visit(l, dict(sub), nctx, d + 1)


def mask_values(P, f, n, sub, depth=0):
    """possible values of a relation-set expression: list of (int or None, extra facts)"""
    n = unwrap(f, n)
    v = const_int(f, n)
    if v is not None:
        return [(v, frozenset())]
    if n["k"] == "ConditionalOperator" and depth < 6:
        out = []
        for i, pol in ((1, True), (2, False)):
            fs = set()
            for kind, key, p in P.assume(f, n["c"][0], pol, sub):
                if kind == "true" and re.fullmatch(r"p\d+(\.\w+)?", key):
                    fs.add((key, p))
                if kind == "true" and key in ("#0", "#1") and (key == "#1") != p:
                    fs = None
                    break
            if fs is None:
                continue
            out += [(v, x | frozenset(fs)) for v, x in mask_values(P, f, n["c"][i], sub, depth + 1)]
        return out
    if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") in ("Var", "Parm"):
        vid = n["d"]["id"]
        if vid in sub and re.fullmatch(r"#-?\d+", sub[vid]):
            return [(int(sub[vid][1:]), frozenset())]
        h = P._owner(f, vid)
        if h is not None and depth < 6:
            out = []
            if h.vardefs.get(vid) is not None:
                out += mask_values(P, h, h.vardefs[vid], sub, depth + 1)
            for m in h.mods.get(vid, ()):
                if m["k"] == "BinaryOperator" and m.get("op") == "=":
                    st = P.state_at(h, m) or set()
                    fs = frozenset((subst(k, {"v:" + a: b for a, b in sub.items()}), p) for kind, k, p in st if kind == "true")
                    fs = frozenset(x for x in fs if re.fullmatch(r"p\d+(\.\w+)?", x[0]))
                    out += [(v, x | fs) for v, x in mask_values(P, h, m["c"][1], sub, depth + 1)]
                elif m["k"] == "CXXOperatorCallExpr" and m.get("op") in ("|=", "&="):
                    base = list(out)
                    st = P.state_at(h, m) or set()
                    fs = frozenset((subst(k, {"v:" + a: b for a, b in sub.items()}), p) for kind, k, p in st if kind == "true")
                    fs = frozenset(x for x in fs if re.fullmatch(r"p\d+(\.\w+)?", x[0]))
                    for v, x in mask_values(P, h, m["c"][2], sub, depth + 1):
                        for b, y in base:
                            if v is None or b is None:
                                out.append((None, x | y))
                            else:
                                out.append(((b | v) if m["op"] == "|=" else (b & v), x | y | fs))
                else:
                    out.append((None, frozenset()))
            return out or [(None, frozenset())]
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("|", "&") and len(n["c"]) == 3 and depth < 6:
        out = []
        for a, x in mask_values(P, f, n["c"][1], sub, depth + 1):
            for b, y in mask_values(P, f, n["c"][2], sub, depth + 1):
                out.append((None if a is None or b is None else (a | b if n["op"] == "|" else a & b), x | y))
        return out
    return [(None, frozenset())]


def builds_filter(P, t):
    return any("EdgeCostFilter::EdgeCostFilter" in (m.get("f") or "") for m in t.calls())


def views(P, events):
    """(mask, ctx, f, n) for every graph view created along a traversal; only the calls that finally build the filter"""
    out = []
    for f, n, sub, ctx in events:
        if not is_view(f.type(n)):
            continue
        a = [x for x in call_args(f, n) if REL in f.type(x)]
        if not a or not any(builds_filter(P, t) for t in P.targets(n)):
            continue
        for v, fs in mask_values(P, f, a[0], sub):
            c = ctx | fs
            if any((k, not p) in c for k, p in c):
                continue
            out.append((v, c, f, n))
    return out
