"""R05: route validation reports exactly the broken relations."""
import re
from ..core import *
from ..ccp import CCP
from ..routing import relations, REL
from ..facts import AnalysisBroken

RT = "lanelet::routing::Route"
RG = "lanelet::routing::RoutingGraph"
OPP = {"Left": ("Right", "AdjacentRight"), "AdjacentLeft": ("Right", "AdjacentRight"),
       "Right": ("Left", "AdjacentLeft"), "AdjacentRight": ("Left", "AdjacentLeft"), "Conflicting": ("Conflicting",)}


def expected(s, t):
    """must an error be reported for an edge with relation s whose reverse edge has relation t (None: no reverse edge)?"""
    if s == "Successor":
        return False
    if t is None:
        return True
    if s not in OPP:
        return True
    return t not in OPP[s]


def is_push(f, n, errs):
    if n["k"] not in CALLS or short(n.get("f") or "") not in ("emplace_back", "push_back", "insert", "emplace"):
        return False
    o = call_obj(f, n)
    return o is not None and bool(re.search(errs, f.type(o)))


def edge_fn(P, roots):
    """(function, call) looking up the reverse edge"""
    for f in P.reach(roots):
        f = P.funcs[f] if isinstance(f, str) else f
        if "lanelet2_routing/src" not in f.file or f.flag("dep"):
            continue
        for n in f.calls():
            if n.get("f") == "boost::edge":
                yield f, n


def loop_of(f, n, kinds=("ForStmt", "CXXForRangeStmt", "WhileStmt")):
    p = n
    while p is not None:
        if p["k"] in kinds:
            return p
        p = f.parent(p)
    return None


def loop_blocks(f, loop):
    head = [b for b, x in f.cfg["blocks"].items() if x.get("ti") == loop["i"]]
    if not head:
        return None
    return f.cfg["blocks"][head[0]]["s"][0], head[0]


def run(c):
    P = c.program("routing")
    rel = relations(P)
    vals = {n: v for n, v in rel.items() if v}
    c.rule("relation", "for every combination of a recorded relation and the relation recorded in the opposite direction an error is reported if and only if they contradict", 40)
    c.rule("all-edges", "every edge of the route's graph is examined", 1)
    c.rule("path", "every element of the shortest path that is not part of the route is reported, and no other", 2)
    c.rule("throws", "validation raises an error exactly if that was asked for and errors were found, and returns what it found", 4)
    c.rule("graph", "validation of routing graphs compares each neighbour with the relations of the opposite side", 4)
    ERR = r"vector<(std::)?(__cxx11::)?(basic_)?string"
    push = lambda f, n: "error" if is_push(f, n, ERR) else None
    inscope = lambda g: "lanelet2_routing" in g.file
    entry = [f for f in P.lib() if f.cls == RT and f.short == "checkValidity" and not f.flag("dep")]
    if not entry:
        raise AnalysisBroken("Route::checkValidity not found")
    found = 0
    for f, n in edge_fn(P, entry):
        found += 1
        # what is looked up: from the target to the source of an edge
        a = [P.key(f, x) for x in call_args(f, n)]
        m1 = re.match(r"target\((.*?),", a[0])
        m2 = re.match(r"source\((.*?),", a[1])
        c.ob("relation", bool(m1 and m2 and m1.group(1) == m2.group(1)), f.loc(n), "reverse", "the edge looked up is not the reverse of the one examined")
        ek = m1.group(1) if m1 else a[0]
        # variables that hold the reverse edge / its existence
        rev_edge, rev_ok = set(), set()
        for g, x in [(f, y) for y in f.all("CXXOperatorCallExpr") if y.get("op") == "="]:
            if any(z is n for z in subtree(f, x)):
                l = unwrap(f, x["c"][1])
                if l["k"] in CALLS and short(l.get("f") or "") == "tie":
                    t = call_args(f, l)
                    rev_edge.add(P.key(f, t[0]))
                    rev_ok.add(P.key(f, t[1]))
        for x in f.all("DeclStmt"):
            for v in x.get("vars", ()):
                if v.get("init") is not None and any(z is n for z in subtree(f, v["init"])):
                    nk = P.key(f, n)
                    for base in ("v:" + v["id"], nk):
                        rev_edge.add(base + ".first")
                        rev_ok.add(base + ".second")
                    b = v.get("bind") or ()
                    if len(b) == 2:
                        rev_edge.add("v:" + b[0])
                        rev_ok.add("v:" + b[1])
        if not rev_ok:
            raise AnalysisBroken(f"{f.loc(n)}: result of the reverse edge look-up is not understood")

        def mk(s, t):
            def oracle(g, x):
                if g is not f and g.d.get("parent") != f.id:
                    return None
                if x["k"] not in ("DeclRefExpr", "MemberExpr"):
                    return None
                if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") not in ("Var", "Parm"):
                    return None
                k = P.key(g, x)
                if k in rev_ok:
                    return 0 if t is None else 1
                if k.endswith(".relation"):
                    base = re.search(r"\[(.*)\]\.relation$", k)
                    if base and base.group(1) in rev_edge:
                        return vals.get(t, 0)
                    if base and base.group(1) == ek:
                        return vals[s]
                return None
            return oracle
        loop = None if f.kind == "lambda" or f.short != "checkValidity" else loop_of(f, n)
        for s in vals:
            for t in [None] + list(vals):
                C = CCP(P, mk(s, t), push, inscope)
                if loop is not None:
                    lb = loop_blocks(f, loop)
                    if lb is None:
                        raise AnalysisBroken(f"{f.loc(loop)}: loop over edges is not understood")
                    r = C.run(f, {}, start=lb[0], stop=backs(f, lb[1]) | {lb[1]})
                else:
                    r = C.run(f, {})
                want = expected(s, t)
                got = "error" in (r.must or ()) if want else "error" not in r.may
                c.ob("relation", bool(got), f.loc(n), f"{s}|{t}",
                     f"an element that is {s} of another one " + (f"that has no relation back" if t is None else f"that is in turn {t} of it") +
                     (" is not always reported" if want else " may be reported although that is consistent"))
        # all edges
        ok = False
        if f.kind == "lambda":
            for g, m in P.callers().get(f.id, ()):
                for cn in g.calls():
                    if short(cn.get("f") or "") == "for_each" and any(f in P.lambdas(y) for y in subtree(g, cn) if y["k"] == "LambdaExpr"):
                        ks = [P.key(g, x) for x in call_args(g, cn)[:2]]
                        ok = ok or edges_range(ks[0], ks[1])
                if not ok and m["k"] == "LambdaExpr":
                    ok = None if ok is False else ok
        elif loop is not None:
            if loop["k"] == "CXXForRangeStmt":
                ok = "edges(" in " ".join(P.key(f, x) for x in [loop["range"]] if x is not None)
            else:
                its = {P.key(f, x) for x in f.calls() if x.get("f") == "boost::edges"}
                ok = bool(its)
        else:
            ok = True
        c.ob("all-edges", ok is not False, f.loc(n), "range", "not every edge of the route's graph is examined")
    if not found:
        raise AnalysisBroken("no look-up of reverse edges found in Route::checkValidity")
    # ---- shortest path
    done = 0
    for f in {x for x in P.reach(entry)}:
        f = P.funcs[f] if isinstance(f, str) else f
        if f.flag("dep") or "lanelet2_routing" not in f.file or not f.cfg:
            continue
        for loop in f.all("CXXForRangeStmt", "ForStmt"):
            over = P.key(f, loop["range"]) if loop.get("range") is not None else " ".join(P.key(f, x) for x in subtree(f, loop) if x["k"] in CALLS and short(x.get("f") or "") == "begin")
            if "shortestPath_" not in over:
                continue
            lb = loop_blocks(f, loop)
            if lb is None:
                continue
            done += 1
            for inr in (0, 1):
                def oracle(g, x):
                    if x["k"] in CALLS and short(x.get("f") or "") == "contains":
                        return inr
                    if x["k"] in CALLS and short(x.get("f") or "") == "getVertex":
                        return inr
                    return None
                r = CCP(P, oracle, push, inscope).run(f, {}, start=lb[0], stop={lb[1]} | backs(f, lb[1]))
                ok = ("error" not in r.may) if inr else ("error" in (r.must or ()))
                c.ob("path", ok, f.loc(loop), f"path|{inr}", "an element of the shortest path that is part of the route is reported" if inr else
                     "an element of the shortest path that is not part of the route is not always reported")
    if not done:
        # algorithm based: accept any error under a failed membership test in a lambda
        for f in P.reach(entry):
            f = P.funcs[f] if isinstance(f, str) else f
            for n in (f.calls() if f.cfg else ()):
                if push(f, n) and any(x[0] == "true" and not x[2] and ("contains(" in x[1] or "getVertex(" in x[1]) for x in (P.state_at(f, n) or ())):
                    c.ob("path", True, f.loc(n), "path", "")
                    c.ob("path", True, f.loc(n), "path2", "")
                    done = 1
        if not done:
            c.ob("path", False, entry[0].loc(), "path|none", "elements of the shortest path are not checked for being part of the route")
    # ---- throws
    for cls in (RT, RG):
        for f in P.lib():
            if f.cls != cls or f.short != "checkValidity" or f.flag("dep") or not f.params:
                continue
            throws(P, c, f)
    graph(P, c)


def backs(f, head):
    """blocks of the increment of a for loop: predecessors of the head other than the entry edge"""
    cfg = f.cfg
    body = cfg["blocks"][head]["s"][0]
    out = set()
    for p, _ in cfg["preds"].get(head, ()):
        b = cfg["blocks"][p]
        if all(not isinstance(e, int) or True for e in b["e"]) and len(b["s"]) == 1 and p != body and b["s"][0] == head and reach_from(cfg, body, p):
            out.add(p)
    return out if len(out) == 1 else set()


def reach_from(cfg, a, b):
    st, seen = [a], set()
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen or x is None:
            continue
        seen.add(x)
        st += [y for y in cfg["blocks"][x]["s"] if y is not None]
    return False


def subtree(f, n):
    st = [f.node(n)]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st += [f.node(y) for y in kids(x)]


def edges_range(a, b):
    return bool(re.fullmatch(r"edges\(.*\)\.first|begin\(edges\(.*\)\)|v:\w+#[\d:]+(\.first)?|edges\(.*\)\.begin\(\)", a)) and \
        bool(re.fullmatch(r"edges\(.*\)\.second|end\(edges\(.*\)\)|v:\w+#[\d:]+(\.second)?|edges\(.*\)\.end\(\)", b))


def throws(P, c, f):
    flag = "v:" + f.params[0]["id"]
    par = [x for x in f.params if f.ptype(x) == "bool"]
    if par:
        flag = "v:" + par[0]["id"]
    empt = r"empty|size"
    ev = None
    seenthrow = 0
    for asked in (0, 1):
        for found in (0, 1):
            def oracle(g, x):
                if x["k"] in CALLS and g is f and call_obj(g, x) is not None and "string" in g.type(call_obj(g, x)) and "vector" in g.type(call_obj(g, x)):
                    s = short(x.get("f") or "")
                    if s == "empty":
                        return 1 - found
                    if s == "size":
                        return found
                return None
            C = CCP(P, oracle, None, lambda g: False)
            r = C.run(f, {f.params[0]["id"]: asked} if not par else {par[0]["id"]: asked})
            must_throw = asked and found
            ok = (not r.normal and "throw" in r.throws) if must_throw else (r.normal and "throw" not in r.throws)
            c.ob("throws", ok, f.loc(), f"{f.cls}|{asked}{found}",
                 f"{f.name}({'true' if asked else 'false'}) " + ("does not always raise an error" if must_throw else "can raise an error") +
                 (" although errors were found" if found and asked else " although none were found" if not found else " although it was not asked to"))
    for n in f.all("CXXThrowExpr"):
        t = f.type(f.node(n["c"][0])) if n.get("c") else ""
        c.ob("throws", "RoutingGraphError" in t, f.loc(n), f"{f.cls}|type", f"validation raises {t}, which is not the documented error")
    for r, st in P.returns(f):
        u = unwrap(f, r["c"][0])
        ok = u["k"] == "DeclRefExpr" and any(root_var(g, call_obj(g, n)) == u["d"]["id"] for g in [f] + fam(P, f) for n in g.calls()
                                             if short(n.get("f") or "") in ("emplace_back", "push_back") and call_obj(g, n) is not None) or \
            u["k"] == "DeclRefExpr" and any(root_var(g, a) == u["d"]["id"] for g in [f] + fam(P, f) for n in g.calls() if P.targets(n) for a in call_args(g, n))
        c.ob("throws", ok, f.loc(r), f"{f.cls}|return", "validation does not return the errors it collected")


def fam(P, f):
    out, i = [f], 0
    while i < len(out):
        for n in out[i].all("LambdaExpr"):
            out += [l for l in P.lambdas(n) if l not in out]
        i += 1
    return out[1:]


def graph(P, c):
    for f in P.lib():
        if f.cls != RG or f.flag("dep"):
            continue
        for n in f.calls():
            s = short(n.get("f") or "")
            if s not in ("leftRelations", "rightRelations") or f.short in ("leftRelations", "rightRelations"):
                continue
            if not f.short.startswith("check"):
                continue
            mine = "left" if s == "leftRelations" else "right"
            srcs = set()
            for g, x in P.slice(f, call_args(f, n)[0]):
                if x["k"] in CALLS and re.search(r"internal::Graph", x.get("f") or ""):
                    nm = short(x["f"]).lower()
                    if "left" in nm:
                        srcs.add("left")
                    elif "right" in nm:
                        srcs.add("right")
            if not srcs:
                continue
            c.ob("graph", srcs == {"right" if mine == "left" else "left"}, f.loc(n), f"{f.name}|{f.loc(n)}", f"a {'/'.join(sorted(srcs))} neighbour is compared with its {mine} relations")
