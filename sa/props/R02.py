"""R02: every routing query follows exactly the relations it is named after, in the right direction."""
import re
from ..core import *
from ..routing import *
from ..facts import AnalysisBroken

S = {"Successor"}
LC = S | {"Left", "Right"}
A = S | {"Area"}
ALC = LC | {"Area"}
RG, RT = "lanelet::routing::RoutingGraph", "lanelet::routing::Route"
# query -> (relations with lane changes permitted, relations without, direction)
SPEC = {
    RG: {
        "following": (LC, S, "f"), "followingRelations": (LC, S, "f"), "previous": (LC, S, "b"), "previousRelations": (LC, S, "b"),
        "left": ({"Left"}, None, "f"), "lefts": ({"Left"}, None, "f"), "right": ({"Right"}, None, "f"), "rights": ({"Right"}, None, "f"),
        "adjacentLeft": ({"AdjacentLeft"}, None, "f"), "adjacentLefts": ({"AdjacentLeft"}, None, "f"),
        "adjacentRight": ({"AdjacentRight"}, None, "f"), "adjacentRights": ({"AdjacentRight"}, None, "f"),
        "besides": ([{"Left"}, {"Right"}], None, "f"),
        "leftRelations": ([{"Left"}, {"AdjacentLeft"}], None, "f"), "rightRelations": ([{"Right"}, {"AdjacentRight"}], None, "f"),
        "conflicting": ({"Conflicting"}, None, "f"),
        "reachableSet": (LC, S, "f"), "reachableSetTowards": (LC, S, "b"), "reachableSetIncludingAreas": (ALC, None, "f"),
        "possiblePaths": (LC, S, "f"), "possiblePathsTowards": (LC, S, "b"), "possiblePathsIncludingAreas": (ALC, A, "f"),
        "forEachSuccessor": (LC, S, "f"), "forEachSuccessorIncludingAreas": (ALC, A, "f"),
        "forEachPredecessor": (LC, S, "b"), "forEachPredecessorIncludingAreas": (ALC, A, "b"),
        "shortestPath": (LC, S, "f"), "shortestPathVia": (LC, S, "f"), "shortestPathIncludingAreas": (ALC, A, "f"),
        "shortestPathIncludingAreasVia": (ALC, A, "f"), "getRoute": (LC, S, ""), "getRouteVia": (LC, S, ""),
    },
    RT: {
        "following": (S, None, "f"), "followingRelations": (S, None, "f"), "previous": (S, None, "b"), "previousRelations": (S, None, "b"),
        "leftRelation": ({"Left", "AdjacentLeft"}, None, "f"), "leftRelations": ({"Left", "AdjacentLeft"}, None, "f"),
        "rightRelation": ({"Right", "AdjacentRight"}, None, "f"), "rightRelations": ({"Right", "AdjacentRight"}, None, "f"),
        "forEachSuccessor": (LC, None, "f"), "forEachPredecessor": (LC, None, "b"),
        "conflictingInRoute": ({"Conflicting"}, None, "f"), "fullLane": (S, None, ""), "remainingLane": (S, None, "f"),
    },
}


def keyof(P, f, e):
    u = unwrap(f, e)
    while u["k"] == "InitListExpr" and len(u.get("c", ())) == 1:
        u = unwrap(f, u["c"][0])
    return P.key(f, u)


def names(s):
    return "+".join(sorted(s)) or "nothing"


def queries(P, cls):
    for f in sorted(P.lib(), key=lambda f: (f.file, f.line)):
        if f.cls == cls and f.kind == "method" and f.flag("const") and f.d.get("access") == "public":
            yield f


def run(c):
    P = c.program("routing")
    rel = relations(P)
    full = sum({v for v in rel.values()})
    c.rule("bits", "relation kinds are distinct single bits and the set of all relations contains each of them", 8)
    c.rule("relations", "each query only creates graph views with the relations it stands for, per lane-change option", 55)
    c.rule("direction", "forward queries traverse outgoing edges, backward queries incoming edges or the reversed graph", 40)
    c.rule("filtered", "edges are only enumerated on the restricted view, never on the unrestricted graph", 6)
    c.rule("filter", "the edge filter passes an edge only if cost model and relation both match what was asked for", 6)
    c.rule("label", "relation labels attached to results match the relation the element was found by", 6)
    c.rule("no-conflicts", "relation look-ups that leave out conflicts use a view without conflicting edges", 1)
    c.rule("conflicts-in-map", "conflicts recorded with route elements come from conflicting edges only", 1)
    # ---- bits
    nz = {n: v for n, v in rel.items() if v}
    for n, v in nz.items():
        c.ob("bits", v > 0 and v & (v - 1) == 0 and list(nz.values()).count(v) == 1, "lanelet2_routing Forward.h", f"bit|{n}",
             f"RelationType::{n} = {v} is not a bit of its own")
    allv = None
    for f in P.fn("lanelet::routing::allRelations"):
        for r, _ in P.returns(f):
            allv = const_int(f, r["c"][0])
            c.ob("bits", allv is not None and allv & full == full, f.loc(r), "allRelations", "allRelations() misses a relation kind")
    every = frozenset(nz)
    # ---- queries
    inscope = lambda t: "lanelet2_routing" in t.file and "internal/ShortestPath" not in t.file
    trav = {}
    for cls, spec in SPEC.items():
        seen = set()
        for f in queries(P, cls):
            sp = spec.get(f.short)
            if sp is None:
                continue
            seen.add(f.short)
            T = Traversal(P, f, inscope)
            trav[f.id] = T
            qn = f"{cls.rsplit('::', 1)[-1]}::{f.short}/{len(f.params)}/{','.join(f.ptype(p).split('::')[-1] for p in f.params)}"
            want_t, want_f, direction = sp
            flag = None
            for i, p in enumerate(f.params):
                t = f.ptype(p)
                if t == "bool":
                    flag = f"p{i}"
                elif "PossiblePathsParams" in t:
                    flag = f"p{i}.includeLaneChanges"
            vs = views(P, T.events)
            if not vs:
                raise AnalysisBroken(f"{qn}: no graph view found")
            sets = {True: set(), False: set()}
            wh = {}
            both = set()
            lab = every - {"Conflicting"}
            for m, ctx, g, n in vs:
                if m is None:
                    raise AnalysisBroken(f"{g.loc(n)}: relation set of a graph view is not a constant")
                rs = relset(P, m)
                wh.setdefault(rs, g.loc(n))
                if any((g2.short == "routingRelation") for g2 in [g]) and rs == lab:
                    continue
                pol = [p for k, p in ctx if k == flag]
                if pol:
                    sets[pol[0]].add(rs)
                else:
                    both.add(rs)
            for p in (True, False):
                if not sets[p]:
                    sets[p] = set(both)
            if flag is None and (sets[True] | sets[False]) != both:
                pass
            for p, want in ((True, want_t), (False, want_f)):
                if want is None:
                    continue
                ws = {frozenset(x) for x in want} if isinstance(want, list) else {frozenset(want)}
                got = sets[p] if want_f is not None else both
                opt = f" {'with' if p else 'without'} lane changes" if want_f is not None else ""
                bad = got ^ ws
                c.ob("relations", not bad, next((wh[b] for b in bad if b in wh), f.loc()), f"{qn}|{p}",
                     f"{qn}{opt} follows {' / '.join(names(x) for x in sorted(got, key=sorted))} instead of {' / '.join(names(x) for x in sorted(ws, key=sorted))}",
                     sample=f"{qn}{opt}: {' / '.join(names(x) for x in sorted(got, key=sorted))}")
            # direction
            ops = {}
            for g, n, sub, ctx in T.events:
                s = short(n["f"])
                if (n["f"] or "").startswith("boost::") and s in ("out_edges", "in_edges", "source", "target", "make_reverse_graph"):
                    if s in ("out_edges", "in_edges") and not re.search("graph", "".join(g.type(a) for a in call_args(g, n))):
                        continue
                    ops.setdefault(s, g.loc(n))
                if s in ("out_edges", "in_edges") and (n["f"] or "").startswith("boost::"):
                    gt = g.type(call_args(g, n)[1]) if len(call_args(g, n)) > 1 else ""
                    c.ob("filtered", "filtered_graph" in gt, g.loc(n), f"{qn}|{s}",
                         f"{qn} enumerates edges of the unrestricted graph")
            rev = "make_reverse_graph" in ops
            if direction == "f":
                bad = [o for o in ("in_edges", "source", "make_reverse_graph") if o in ops]
                c.ob("direction", not bad, ops.get(bad[0]) if bad else f.loc(), f"{qn}|dir",
                     f"{qn} is a forward query but uses {', '.join(bad)}")
            elif direction == "b":
                bad = [o for o in ("out_edges", "target") if o in ops]
                ok = not bad and ("in_edges" in ops or rev)
                c.ob("direction", ok, ops.get(bad[0]) if bad else f.loc(), f"{qn}|dir",
                     f"{qn} is a backward query but " + (f"uses {', '.join(bad)}" if bad else "never follows edges backwards"))
        miss = set(spec) - seen
        if miss:
            raise AnalysisBroken(f"queries of {cls} not found: {sorted(miss)}")
    # ---- relation look-up
    for f in P.fn(RG + "::routingRelation"):
        T = Traversal(P, f, inscope)
        flag = [f"p{i}" for i, p in enumerate(f.params) if f.ptype(p) == "bool"]
        vs = views(P, T.events)
        for m, ctx, g, n in vs:
            if flag and (flag[0], True) in ctx:
                continue
            c.ob("no-conflicts", m is not None and relset(P, m) == every - {"Conflicting"}, g.loc(n), "routingRelation|view",
                 f"relations without conflicts are looked up in a view with {names(relset(P, m or 0))}")
        for g, n, sub, ctx in T.events:
            if n["f"] == "boost::edge":
                a = call_args(g, n)
                ka, kb = P.key(g, a[0], sub), P.key(g, a[1], sub)
                ok = "p0" in ka and "p1" in kb and "p1" not in ka and "p0" not in kb
                c.ob("direction", ok, g.loc(n), "routingRelation|order", f"relation from the first to the second element is looked up between {ka} and {kb}")
                if flag and (flag[0], False) in ctx:
                    c.ob("filtered", "filtered_graph" in g.type(a[2]), g.loc(n), "routingRelation|graph",
                         "relation without conflicts is looked up in the unrestricted graph")
    # ---- filter
    for cls in ("lanelet::routing::internal::EdgeCostFilter",):
        ops = [f for f in P.lib() if f.cls == cls and f.short == "operator()"]
        if not ops:
            raise AnalysisBroken("edge filter not found")
        cf = rf = None
        for f in P.lib():
            if f.cls == cls and f.kind == "ctor" and len(f.params) >= 2:
                ini = {i["m"]: i["e"] for i in f.d.get("inits", ()) if i.get("m") and i.get("e")}
                for p in f.params:
                    t = f.ptype(p)
                    if "RelationType" in t:
                        ok = any(keyof(P, f, e) == "v:" + p["id"] for e in ini.values())
                        c.ob("filter", ok, f.loc(), f"ctor{len(f.params)}|relation", "edge filter ignores the relations it is given")
                    if t.replace("const ", "") in ("unsigned short", "lanelet::routing::RoutingCostId"):
                        ok = any(keyof(P, f, e) == "v:" + p["id"] for e in ini.values())
                        c.ob("filter", ok, f.loc(), f"ctor{len(f.params)}|cost", "edge filter ignores the cost model it is given")
        for f in ops:
            for r, st in P.returns(f):
                e = r["c"][0]
                if is_bool(unwrap(f, e), False):
                    continue
                pc = lambda x: x[0] == "eq" and x[2] and "routingCostId_" in x[1] and "pmIds_" in x[1]
                def pr(x):
                    if x[0] == "eq" and x[2] and "relations_" in x[1] and ("allRelations()" in x[1] or f"#{allv}" in x[1]):
                        return True
                    if x[0] == "eq" and not x[2] and "relations_&" in x[1].replace(" ", "") and "pmRelation_" in x[1]:
                        return True
                    return x[0] == "true" and x[2] and "&" in x[1] and "relations_" in x[1] and "pmRelation_" in x[1]
                for nm, pred in (("cost", pc), ("relation", pr)):
                    ok = any(pred(x) for x in st) or P.implies(f, e, True, pred) or P.holds(f, r, pred)
                    c.ob("filter", ok, f.loc(r), f"op|{nm}", f"edge filter can pass an edge of another {nm}")
    for f in P.lib():
        if any("EdgeCostFilter::EdgeCostFilter" in (n.get("f") or "") for n in f.calls()) and f.cls == "lanelet::routing::internal::Graph":
            for n in f.calls():
                if "EdgeCostFilter::EdgeCostFilter" in n["f"] and len(n.get("c", ())) == 3:
                    ks = [P.key(f, x) for x in n["c"]]
                    ps = ["v:" + p["id"] for p in f.params]
                    c.ob("filter", ks[1] in ps and ks[2] in ps, f.loc(n), f"{f.short}|args", "graph view is built with other cost model or relations than requested")
    # ---- filter of the graph a route is built from
    for f in P.lib():
        if f.cls == "lanelet::routing::internal::OriginalGraphFilter" and f.kind == "ctor" and f.params:
            base = None
            for i in f.d.get("inits", ()):
                if i.get("m", "").endswith("filterMask_"):
                    base = const_int(f, unwrap(f, i["e"]) if unwrap(f, i["e"])["k"] != "InitListExpr" else i["e"]["c"][0])
            if base is None:
                raise AnalysisBroken(f"{f.loc()}: base relations of the route graph not recognised")
            c.ob("relations", relset(P, base) == S | {"Conflicting"}, f.loc(), "OriginalGraphFilter|base",
                 f"routes without lane changes are built from {names(relset(P, base))}")
            flag = next((p for p in f.params if f.ptype(p) == "bool"), None)
            add, cond = 0, True
            for n in f.nodes.values():
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "|=":
                    v = const_int(f, n["c"][2])
                    add |= v or 0
                    st = P.state_at(f, n) or set()
                    cond = cond and flag is not None and ("true", "v:" + flag["id"], True) in st
            c.ob("relations", cond and relset(P, base | add) == every - {"Area"}, f.loc(), "OriginalGraphFilter|lanechange",
                 f"routes with lane changes are built from {names(relset(P, base | add))}" + ("" if cond else ", regardless of the option"))
        if f.cls in ("lanelet::routing::internal::OriginalGraphFilter", "lanelet::routing::internal::EdgeRelationFilter") and f.short == "operator()":
            for r, st in P.returns(f):
                e = r["c"][0]
                if is_bool(unwrap(f, e), False):
                    continue
                pr = lambda x: (x[0] == "eq" and not x[2] and "&" in x[1] and ".relation" in x[1] or
                                x[0] == "true" and x[2] and "&" in x[1] and ".relation" in x[1])
                pc = lambda x: x[0] == "eq" and x[2] and ".costId" in x[1] and "this.costId_" in x[1]
                for nm, pred in (("relation", pr),) + ((("cost", pc),) if "Original" in f.cls else ()):
                    ok = any(pred(x) for x in st) or P.implies(f, e, True, pred) or P.holds(f, r, pred)
                    c.ob("filter", ok, f.loc(r), f"{f.cls}|op|{nm}", f"edge filter can pass an edge of another {nm}")
    # ---- labels
    def masks_of(q):
        if q.id not in trav:
            return None
        return {relset(P, v[0]) for v in views(P, trav[q.id].events) if v[0] is not None}
    for cls in (RG, RT):
        for f in queries(P, cls):
            for n in f.nodes.values():
                if n["k"] in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr") and f.type(n).endswith("LaneletRelation") and len(n.get("c", ())) == 2:
                    lab = unwrap(f, n["c"][1])
                    stop = lambda g, x: any(t.cls in (RG, RT) and t.id in trav for t in P.targets(x))
                    src = [x for g, x in P.slice(f, n["c"][0], stop) if x["k"] in CALLS and stop(f, x)]
                    v = const_int(f, lab)
                    if v is not None:
                        got = set()
                        for x in src:
                            for t in P.targets(x):
                                got |= masks_of(t) or set()
                        c.ob("label", got == {relset(P, v)}, f.loc(n), f"{f.name}|{names(relset(P, v))}",
                             f"{f.short} labels elements found by {' / '.join(names(x) for x in got)} as {names(relset(P, v))}")
                    else:
                        # label looked up: from the queried lanelet to the element (or back for predecessors)
                        qs = [x for g, x in P.slice(f, n["c"][1]) if x["k"] in CALLS and short(x.get("f") or "") == "routingRelation"]
                        for x in qs:
                            a = [P.key(f, y) for y in call_args(f, x)]
                            p0 = "v:" + f.params[0]["id"]
                            fw = SPEC[cls].get(f.short, (0, 0, "f"))[2] == "f"
                            ok = (a[0] == p0 and a[1] != p0) if fw else (a[1] == p0 and a[0] != p0)
                            c.ob("label", ok, f.loc(x), f"{f.name}|lookup", f"{f.short} looks up the relation in the wrong direction")
    # ---- conflicts stored in routes
    for f in P.lib():
        if any(n["k"] == "CXXMemberCallExpr" and short(n.get("f") or "") in ("push_back", "emplace_back") and
               P.key(f, call_obj(f, n)).endswith(".conflictingInMap") for n in f.calls() if call_obj(f, n) is not None):
            top = f
            while top.kind == "lambda" and P.funcs.get(top.d.get("parent")) is not None:
                top = P.funcs[top.d["parent"]]
            ts = {m.group(1) for n in top.nodes.values() if n["k"] in ("CallExpr",) and n.get("f") in ("boost::out_edges", "boost::in_edges")
                  for m in [re.search(r"EdgeRelationFilter<[^<>]*?(?:\(lanelet::routing::RelationType\))?(\d+|lanelet::routing::RelationType::\w+)", top.type(unwrap(top, call_args(top, n)[1])))] if m}
            vals = set()
            for t in ts:
                vals.add(int(t) if t.isdigit() else rel[t.rsplit("::", 1)[-1]])
            if vals:
                c.ob("conflicts-in-map", vals == {rel["Conflicting"]}, top.loc(), "conflictingInMap", "conflicts of a route element are collected from other relations")
            else:
                raise AnalysisBroken(f"{top.loc()}: source of conflictingInMap not recognised")
    c.analysed["queries"] = len(trav)
