"""R04: routing rejects invalid costs and cost ids."""
import re
from ..core import *
from ..facts import AnalysisBroken
from .T01 import derived

ID_T = "RoutingCostId"


def num_fact(idk):
    """fact: id < number of cost models"""
    def pred(x):
        if x[0] != "cmp":
            return False
        m = re.match(r"(.*?)(<=|>=|<|>)(.*)$", x[1])
        return bool(m) and m.group(2) == "<" and same(m.group(1), idk) and is_num(m.group(3))
    return pred


def same(a, b):
    s = lambda t: re.sub(r"^\w*(?:size_t|RoutingCostId|int)\((.*)\)$", r"\1", t)
    return s(a) == s(b)


def is_num(k):
    return bool(re.search(r"(numRoutingCosts_|numRoutingCosts\(\)|[rR]outingCosts_?(#\d+:\d+)?\.size\(\))\)?$", k)) and not re.search(r"[-+*/]#", k)


def id_key(k):
    return k


def run(c):
    P = c.program("routing")
    c.rule("id", "every graph view or export selected by a cost model id is made after the id was found to be below the number of cost models", 4)
    c.rule("id-error", "an id that is not below the number of cost models raises the documented error", 3)
    c.rule("count", "a graph knows the number of cost models it was built with", 2)
    c.rule("negative", "edges are stored only after a negative cost was ruled out, and a negative cost raises the documented error", 4)
    c.rule("index", "cost models are only indexed by ids below their number", 2)
    c.rule("model", "the provided cost models reject negative lane change costs", 2)
    errs = derived(P, "lanelet::LaneletError")
    # ---- selecting by id: constructors of the edge filter
    def checked(f, e, n, d, busy=frozenset()):
        u = unwrap(f, e)
        if const_int(f, u) == 0:
            return []
        k = P.key(f, u)
        if P.holds(f, n, num_fact(k)):
            return []
        if u["k"] == "DeclRefExpr" and u.get("d", {}).get("k") == "Parm" and d < 6:
            for i, p in enumerate(f.params):
                if p["id"] == u["d"]["id"]:
                    if (f.id, i) in busy:
                        return []
                    cs = P.callsites(f.id)
                    if not cs or (f.d.get("access") == "public" and (f.cls or "").startswith("lanelet::routing::Rout")):
                        return [f.loc(n)]
                    out = []
                    for g, m in cs:
                        a = call_args(g, m)
                        if i < len(a):
                            out += checked(g, a[i], m, d + 1, busy | {(f.id, i)})
                    return out
        return [f.loc(n)]

    seen = set()
    for f in P.lib():
        if f.flag("dep") or "lanelet2_routing" not in f.file:
            continue
        for n in f.calls():
            if n["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or short(n.get("f") or "") != "EdgeCostFilter" or n.get("copy") or n.get("move"):
                continue
            args = call_args(f, n)
            if len(args) < 2:
                continue
            key = f"{f.name}|{f.loc(n)}"
            if key in seen:
                continue
            seen.add(key)
            bad = checked(f, args[1], n, 0)
            c.ob("id", not bad, (bad or [f.loc(n)])[0], f"{f.name}|filter", "a graph view for a cost model id is made without checking the id against the number of cost models")
        # functions that receive an id and export
        for n in f.calls():
            s = short(n.get("f") or "")
            if re.match(r"exportGraph(ML|Viz)Impl$", s) and (f.cls or "") == "lanelet::routing::RoutingGraph":
                a = [x for x in call_args(f, n) if ID_T in f.type(x) or "unsigned short" in f.type(x)]
                if a and f.loc(n) not in seen:
                    seen.add(f.loc(n))
                    c.ob("id", P.holds(f, n, num_fact(P.key(f, a[-1]))), f.loc(n), f"{f.name}|{s}", "the cost model id is not checked before exporting")
        # throws under a failed id test
        for n in f.all("CXXThrowExpr"):
            st = P.state_at(f, n)
            if st is None:
                continue
            bad_id = [x for x in st if x[0] == "cmp" and re.match(r"(.*?)>=(.*)$", x[1]) and is_num(re.match(r"(.*?)>=(.*)$", x[1]).group(2))]
            neg = [x for x in st if x[0] == "cmp" and re.search(r"<#-?0(\.0*)?$", x[1])]
            t = f.type(f.node(n["c"][0])) if n.get("c") else ""
            if bad_id:
                c.ob("id-error", "InvalidInputError" in t, f.loc(n), f"{f.name}|err", f"an unknown cost model id raises {t} instead of the documented error")
    # every id test that fails must lead to an error
    for f in P.lib():
        if f.flag("dep") or "lanelet2_routing" not in f.file or not f.cfg:
            continue
        for bid, blk in f.cfg["blocks"].items():
            cn = f.nodes.get(blk.get("cond", -1))
            if cn is None or len(blk["s"]) != 2 or not f.cfg:
                continue
            u = unwrap(f, cn)
            for si, pol in ((0, True), (1, False)):
                fs = P.assume(f, u, pol)
                if any(x[0] == "cmp" and re.match(r"(.*?)>=(.*)$", x[1]) and is_num(re.match(r"(.*?)>=(.*)$", x[1]).group(2)) and
                       ID_T.lower() in x[1].lower() or x[0] == "cmp" and re.match(r"(.*?)>=(.*)$", x[1]) and
                       "numRoutingCosts" in x[1] for x in fs):
                    tgt = blk["s"][si]
                    c.ob("id-error", always_throws(f, tgt), f.loc(u), f"{f.name}|test", "a cost model id that is out of range does not lead to an error")
    # ---- count
    nt = 0
    for f in P.lib():
        if f.flag("dep") or "lanelet2_routing" not in f.file:
            continue
        if f.kind == "ctor" and (f.cls or "").startswith("lanelet::routing::internal::Graph") and f.params:
            for i in f.d.get("inits", ()):
                if short(i.get("m") or "").startswith("numRoutingCosts"):
                    k = P.key(f, i["e"])
                    c.ob("count", k == "v:" + f.params[0]["id"], f.loc(), f"{f.cls}|ctor", "the number of cost models is not stored as given")
                    nt += 1
        for n in f.calls():
            s = short(n.get("f") or "")
            if s in ("make_unique", "make_shared") and re.search(r"\bRoutingGraphGraph\b", f.type(n)):
                a = [P.key(f, x) for x in call_args(f, n)]
                c.ob("count", len(a) == 1 and bool(re.search(r"[rR]outingCosts_?(#\d+:\d+)?\.size\(\)$", a[0])) and not re.search(r"[-+]", a[0].split("size")[-1]), f.loc(n),
                     f"{f.name}|RoutingGraphGraph", "the routing graph is created for a different number of cost models than it was given")
            if s in ("make_unique", "make_shared") and re.search(r"\bRouteGraph\b", f.type(n)):
                v = const_int(f, call_args(f, n)[0])
                if v is None:
                    c.note(f"{f.loc(n)}: number of cost models of a route graph is not constant")
                    continue
                # edges put into a route graph carry an id below that number
                for g in P.lib():
                    if g.flag("dep"):
                        continue
                    for m in g.calls():
                        if short(m.get("f") or "") == "addEdge" and call_obj(g, m) is not None and "RouteGraph" in g.type(call_obj(g, m)) and len(call_args(g, m)) == 3:
                            e = unwrap(g, call_args(g, m)[2])
                            r = root_var(g, e)
                            st = P.state_at(g, m) or set()
                            ok = any(x[0] == "def" and re.match(r"v:" + re.escape(str(r)) + r"\.costId:=#(\d+)$", x[1]) and int(x[1].rsplit("#", 1)[1]) < v for x in st)
                            if e["k"] == "InitListExpr" and len(e["c"]) >= 2:
                                ci = const_int(g, e["c"][1])
                                ok = ci is not None and ci < v
                            c.ob("count", ok, g.loc(m), f"{g.name}|route edge", "an edge stored with a route carries the id of a cost model the route's graph does not have")
    # ---- negative
    for f in P.lib():
        if f.flag("dep") or "lanelet2_routing" not in f.file or not f.cfg:
            continue
        for n in f.calls():
            if short(n.get("f") or "") != "add_edge" or "boost" not in (n.get("f") or ""):
                continue
            if not (f.cls or "").startswith("lanelet::routing::internal::Graph"):
                # graphs of other kinds carry no costs
                if "EdgeInfo" not in " ".join(f.type(a) for a in call_args(f, n)):
                    continue
            def nonneg(x):
                return x[0] == "cmp" and bool(re.search(r"\.routingCost>=#-?0(\.0*)?$", x[1]))
            c.ob("negative", P.holds(f, n, nonneg), f.loc(n), f"{f.cls}|add_edge", "an edge is stored without ruling out a negative cost")
        if (f.cls or "").startswith("lanelet::routing::internal::Graph") and f.short == "addEdge" and any(short(n.get("f") or "") == "add_edge" for n in f.calls()):
            th = []
            for n in f.all("CXXThrowExpr"):
                st = P.state_at(f, n) or set()
                if any(x[0] == "cmp" and re.search(r"\.routingCost<#-?0(\.0*)?$", x[1]) for x in st):
                    t = f.type(f.node(n["c"][0]))
                    th.append("RoutingGraphError" in t)
            c.ob("negative", th and all(th), f.loc(), f"{f.cls}|throw", "a negative cost does not raise the documented error")
            # nothing but an infinite cost leaves the function early
            for bid, blk in f.cfg["blocks"].items():
                for e in blk["e"]:
                    x = f.nodes.get(e) if isinstance(e, int) else None
                    if x is not None and x["k"] == "ReturnStmt":
                        fin = lambda y: y[0] == "true" and not y[2] and y[1].startswith("isfinite(") or y[0] == "cmp" and ".routingCost>=#" in y[1]
                        c.ob("negative", P.holds(f, x, fin), f.loc(x), f"{f.cls}|early", "a finite negative cost can be dropped silently")
    # ---- index
    for f in P.lib():
        if f.flag("dep") or "lanelet2_routing" not in f.file or not f.cfg:
            continue
        for n in f.all("CXXOperatorCallExpr", "ArraySubscriptExpr"):
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") != "[]":
                continue
            a = n["c"][1:] if n["k"] == "CXXOperatorCallExpr" else n["c"]
            if not re.search(r"RoutingCostPtr|shared_ptr<lanelet::routing::RoutingCost>", f.type(f.node(a[0]))):
                continue
            ik, ck = P.key(f, a[1]), P.key(f, a[0])
            def below(x):
                return x[0] == "cmp" and "<" in x[1] and "<=" not in x[1] and x[1].split("<", 1)[0] == ik and is_num(x[1].split("<", 1)[1]) and ck in x[1]
            c.ob("index", P.holds(f, n, below), f.loc(n), f"{f.name}|index", "cost models are indexed without ruling out an id that is too high")
    # ---- provided models
    for f in P.lib():
        if f.kind != "ctor" or f.cls not in derived(P, "lanelet::routing::RoutingCost") or f.flag("dep") or not f.cfg:
            continue
        if f.d.get("copy") or len(f.params) < 1 or "double" not in f.ptype(f.params[0]):
            continue
        ok = False
        for n in f.all("CXXThrowExpr"):
            st = P.state_at(f, n) or set()
            if any(x[0] == "cmp" and re.search(r"[lL]aneChangeCost\w*(#\d+:\d+)?<#-?0(\.0*)?$", x[1]) for x in st) and "InvalidInputError" in f.type(f.node(n["c"][0])):
                ok = True
        c.ob("model", ok, f.loc(), f"{f.cls}|ctor", f"{f.cls} accepts a negative lane change cost")


def always_throws(f, b, seen=None):
    """every path from block b ends in a throw"""
    cfg = f.cfg
    seen = set() if seen is None else seen
    st = [b]
    while st:
        x = st.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        blk = cfg["blocks"][x]
        if blk.get("noret") or any(isinstance(e, int) and (f.nodes.get(e) or {}).get("k") == "CXXThrowExpr" for e in blk["e"]):
            continue
        if x == cfg["exit"]:
            return False
        ss = [s for s in blk["s"] if s is not None]
        if not ss:
            return False
        st += ss
    return True
