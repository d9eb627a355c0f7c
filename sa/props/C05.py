"""C05: the id index, the spatial index and the usage index of a layer change together and are queried faithfully."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from ..feeds import Feeds, last
from ..flow import Flow, RET
from .C03 import reaches, strip
from .C04 import kind, norm, before, isv, vclass, KIND
from .V02 import wk

PARTS = {"Lanelet": {"ownedLookup": ["P0.leftBound", "P0.rightBound"], "regElemLookup": ["P0.regulatoryElements[]"]},
         "Area": {"ownedLookup": ["P0.outerBound[]", "P0.innerBounds[][]"], "regElemLookup": ["P0.regulatoryElements[]"]},
         "LineString3d": {"ownedLookup": ["P0[]"]}, "Polygon3d": {"ownedLookup": ["P0[]"]}, "Point3d": {},
         "RegulatoryElement": {"ownedLookup": ["P0.getParameters[].second[]"]}}
PUT = ("insert", "emplace", "try_emplace", "insert_or_assign")


def up(g, n):
    n = g.parent(n)
    while n is not None:
        yield n
        n = g.parent(n)


def past_empty(P, g, n):
    """facts of a condition that holds, given that the list asked is not empty"""
    n = unwrap(g, n)
    if n is None:
        return set()
    if n["k"] == "BinaryOperator" and n.get("op") == "&&":
        return past_empty(P, g, n["c"][0]) | past_empty(P, g, n["c"][1])
    if n["k"] == "BinaryOperator" and n.get("op") == "||":
        rest = [x for x in n["c"][:2] if not P.key(g, x).endswith(".empty()")]
        return past_empty(P, g, rest[0]) if len(rest) == 1 else set()
    return set(P.assume(g, n, True))


def run(c):
    P = c.program("core")
    lib = [f for f in P.lib() if not f.flag("dep") and f.loc().startswith("lanelet2_core/")]

    def inl(g):
        return not g.flag("dep") and g.loc().startswith(("lanelet2_core/src/LaneletMap", "lanelet2_core/include/lanelet2_core/LaneletMap",
                                                         "lanelet2_core/include/lanelet2_core/utility/Utilities"))
    F = Feeds(P, inline=inl)
    layer = [f for f in lib if f.cls in ("lanelet::PrimitiveLayer", "lanelet::LaneletLayer", "lanelet::AreaLayer")]

    def index_of(f, n):
        """name of the index a call writes"""
        if n["k"] not in CALLS or last(n.get("f", "")) not in PUT:
            return None
        o = call_obj(f, n)
        o = unwrap(f, o) if o is not None else None
        if o is not None and o["k"] == "MemberExpr":
            m = last(o["m"])
            if m in ("elements_", "ownedLookup", "regElemLookup", "rTree"):
                return m
        return None

    def pair(f, n, env):
        """components of a pair expression as terms"""
        n = unwrap(f, n)
        if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") in ("Var", "Parm"):
            vid = n["d"]["id"]
            if vid in env and isinstance(env[vid][0], Func):
                return pair(*env[vid])
            for h in F.owners(f):
                i = h.vardef(vid)
                if isinstance(i, dict):
                    return pair(h, i, env)
            return None
        c_ = [x for x in n.get("c", ()) if x is not None and f.node(x)["k"] != "CXXDefaultArgExpr"]
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr"):
            if len(c_) == 2:
                return [{norm2(t) for t in F.term(f, x, env)} for x in c_]
            return pair(f, c_[0], env) if len(c_) == 1 else None
        if n["k"] in CALLS and last(n.get("f", "")) in ("make_pair",):
            a = call_args(f, n)
            return [{norm2(t) for t in F.term(f, x, env)} for x in a]
        if n["k"] in CALLS:
            for g in P.targets(n):
                if inl(g):
                    rs = [x["c"][0] for x in g.all("ReturnStmt") if x.get("c")]
                    if len(rs) == 1:
                        return pair(g, rs[0], F.bind(f, n, g, env))
        return None

    def norm2(t):
        t = norm(t + ".x")[:-2] if t.endswith(".id") else norm(t)
        return re.sub(r"\.basicPoint(2d)?$", "", t)

    def entry(x):
        """(key terms, value terms) of what is put into an index"""
        a = [y for y in x["argn"] if x["f"].node(y)["k"] != "CXXDefaultArgExpr"]
        if len(a) == 2:
            return [{norm2(t) for t in F.term(x["f"], y, x["env"])} for y in a]
        if len(a) == 1:
            return pair(x["f"], a[0], x["env"])
        return None

    def known(facts):
        """the element was in the layer before"""
        for y in facts:
            if y[0] == "true" and y[2] is False and re.search(r"elements_\.(insert|emplace|try_emplace)\(.*\.second$", y[1]):
                return True
            if y[0] == "true" and y[2] and re.search(r"\bexists\(", y[1]):
                return True
            if y[0] == "isend" and y[2] is False and "elements_.find(" in y[1]:
                return True
        return False

    def new(facts):
        for y in facts:
            if y[0] == "true" and y[2] and re.search(r"elements_\.(insert|emplace|try_emplace)\(.*\.second$", y[1]):
                return True
            if y[0] == "true" and y[2] is False and re.search(r"\bexists\(", y[1]):
                return True
            if y[0] == "isend" and y[2] and "elements_.find(" in y[1]:
                return True
        return False

    def nobox(facts):
        return known(facts) or any(y[0] == "true" and y[2] and y[1].endswith("isEmpty()") or y[0] == "empty" and y[2] for y in facts)

    c.rule("add-all-indices", "a layer's add function records a new element in the id index, in the spatial index (unless it has no extent) and in the "
           "usage index under everything it uses, for every element and on every path", 15)
    c.rule("add-only-new", "an element that is not entered into the id index, because its id is there already, is not entered into the other indices", 6)
    adds = {}
    for f in layer:
        if f.short == "add" and f.params and f.cls == "lanelet::PrimitiveLayer":
            adds.setdefault(kind(f.ptype(f.params[0])), f)
    if len(adds) < 6:
        raise AnalysisBroken("only %d add functions of layers found" % len(adds))
    for k, f in sorted(adds.items(), key=lambda x: str(x[0])):
        fs = F.feeds(f, lambda g, n: index_of(g, n) is not None)
        by = {}
        for x in fs:
            by.setdefault(index_of(x["f"], x["call"]), []).append(x)

        def ob(idx, what, good, prune):
            ok = [x for x in good if not F.skips(x, prune)]
            why = "; ".join(s[2] for x in good for s in F.skips(x, prune)) or "there is no such entry"
            c.ob("add-all-indices", bool(ok), f.loc(), "%s.%s.%s" % (k, idx, what),
                 "PrimitiveLayer<%s>::add does not record %s in %s on every path (%s)" % (k, what, idx, why), {"layer": k, "index": idx, "entry": what})
        exists_first = lambda facts: any(y[0] == "true" and y[2] and re.search(r"\bexists\(", y[1]) or y[0] == "isend" and y[2] is False and "elements_.find(" in y[1]
                                         for y in facts)
        # operator[] / at assignment of the id index
        good = [x for x in by.get("elements_", ()) if entry(x) and "P0" in entry(x)[1] and any(t in ("P0.id", "P0") for t in entry(x)[0])]
        ob("elements_", "the element under its id", good, exists_first)
        good = []
        for x in by.get("rTree", ()):
            e = pair(x["f"], x["argn"][0], x["env"]) if x["argn"] else None
            if e and "P0" in e[1] and any("P0" in t for t in e[0]):
                good.append(x)
        ob("rTree", "the element under its extent", good, nobox)
        for idx, parts in PARTS.get(k, {}).items():
            for part in parts:
                good = [x for x in by.get(idx, ()) if entry(x) and part in {norm2(t) for t in entry(x)[0]} | {t.replace("P0[].second[]", "P0.getParameters[].second[]") for t in entry(x)[0]}
                        and "P0" in entry(x)[1]]
                ob(idx, part, good, known)
        for x in fs:
            if index_of(x["f"], x["call"]) == "elements_":
                continue
            top = x["outer"][0][1]
            # no path to this entry on which the element was not new
            bad = unguarded(P, x["outer"], new)
            c.ob("add-only-new", not bad, x["f"].loc(x["call"]), "%s.%s" % (k, index_of(x["f"], x["call"])),
                 "PrimitiveLayer<%s>::add enters an element into %s although the id index may have refused it" % (k, index_of(x["f"], x["call"])),
                 {"layer": k, "index": index_of(x["f"], x["call"])})

    # -------------------------------------------------- construction
    c.rule("construct-all-indices", "a layer built from a list of elements records each of them in the id, spatial and usage index", 12)
    seen = set()
    for f in layer:
        if f.kind == "ctor" and f.cls == "lanelet::PrimitiveLayer" and f.params and "&&" not in f.ptype(f.params[0]) and f.cfg:
            k = kind(f.ptype(f.params[0]))
            pid = f.params[0]["id"]
            inits = {last(i.get("m") or i.get("n") or ""): i for i in f.d.get("inits", ())}

            def uses(nm):
                i = inits.get(nm)
                n = next((i[z] for z in ("c", "e", "init") if i and i.get(z) is not None), None)
                return n is not None and any(x["k"] == "DeclRefExpr" and x.get("d", {}).get("id") == pid for x in wk(f, f.node(n)))
            fs = F.feeds(f, lambda g, n: index_of(g, n) is not None or n.get("f") == "lanelet::PrimitiveLayer::add")
            whole = [x for x in fs if last(x["call"].get("f", "")) == "add" and not F.skips(x)]
            c.ob("construct-all-indices", uses("elements_") or bool(whole), f.loc(), "%s.elements_" % k, "the constructor of PrimitiveLayer<%s> leaves the id index empty" % k,
                 {"layer": k, "index": "elements_"})
            c.ob("construct-all-indices", uses("tree_") or bool(whole), f.loc(), "%s.tree_" % k, "the constructor of PrimitiveLayer<%s> leaves the spatial index empty" % k,
                 {"layer": k, "index": "rTree"})
            for idx, parts in PARTS.get(k, {}).items():
                for part in parts:
                    want = part.replace("P0", "P0[].second", 1)
                    w2 = want.replace(".getParameters", "")
                    good = [x for x in fs if index_of(x["f"], x["call"]) == idx and entry(x) and (want in entry(x)[0] or w2 in entry(x)[0]) and "P0[].second" in entry(x)[1]]
                    ok = [x for x in good if not F.skips(x)]
                    why = "; ".join(s[2] for x in good for s in F.skips(x)) or "there is no such entry"
                    c.ob("construct-all-indices", bool(ok) or bool(whole), f.loc(), "%s.%s.%s" % (k, idx, part),
                         "the constructor of PrimitiveLayer<%s> does not record %s in %s for every element (%s)" % (k, want, idx, why), {"layer": k, "index": idx, "entry": want})
    for f in lib:
        if f.kind == "ctor" and f.cls == "lanelet::PrimitiveLayer::Tree" and f.params and "&&" not in f.ptype(f.params[0]):
            k = kind(f.ptype(f.params[0]))
            ok, why = tree_complete(P, F, f, nobox)
            c.ob("construct-all-indices", ok, f.loc(), "%s.rTree" % k, "the spatial index of PrimitiveLayer<%s> is not built from all elements: %s" % (k, why),
                 {"layer": k, "index": "rTree"})

    # -------------------------------------------------- queries
    c.rule("query-faithful", "a query asks the index for exactly what the caller asked for", 20)
    for f in lib:
        nm = f.short
        if f.cls not in ("lanelet::PrimitiveLayer", "lanelet::LaneletLayer", "lanelet::AreaLayer"):
            continue
        sig = "%s<%s>%s" % (f.name, elem_of(f), " const" if f.flag("const") else "")
        if nm in ("search", "searchUntil", "nearest", "nearestUntil"):
            fs = F.feeds(f, lambda g, n: (n.get("f") or "").startswith("boost::geometry::index::") and last(n["f"]) not in ("indexable", "query"))
            preds = [x for x in fs if "rtree" not in x["call"]["f"]]
            want = "intersects" if nm.startswith("search") else "nearest"
            if not preds:
                c.note("%s: no spatial predicate found" % sig)
                continue
            for x in preds:
                a = [{norm2(t) for t in F.args(x, i)} for i in range(len(x["argn"]))]
                ok = last(x["call"]["f"]) == want and a and a[0] == {"P0"}
                if nm == "nearest":
                    ok = ok and len(a) > 1 and a[1] == {"P1"}
                if nm == "nearestUntil":
                    ok = ok and len(a) > 1 and all(t.endswith("rTree.size") for t in a[1])
                c.ob("query-faithful", ok, x["f"].loc(x["call"]), sig, "%s asks the spatial index for %s(%s)" % (f.name, last(x["call"]["f"]),
                     ", ".join("|".join(sorted(t)) for t in a)), {"query": sig})
        elif nm == "findUsages" and f.params:
            fs = F.feeds(f, lambda g, n: last(n.get("f", "")) in ("equal_range", "find", "count"))
            k = kind(f.ret()) or elem_of(f)
            pk = kind(f.ptype(f.params[0]))
            idx = "regElemLookup" if pk == "RegulatoryElement" else "ownedLookup"
            if "Point3d" in elem_of(f):
                continue
            ok = False
            for x in fs:
                o = call_obj(x["f"], x["call"])
                ot = {norm2(t) for t in F.term(x["f"], o, x["env"])} if o is not None else set()
                if last(x["call"]["f"]) == "equal_range" and any(t.endswith("." + idx) for t in ot) and {norm2(t) for t in F.args(x)} == {"P0"} and not F.skips(x):
                    ok = True
            c.ob("query-faithful", ok, f.loc(), sig + ":" + str(pk), "%s does not return all entries of %s for its argument" % (f.name, idx), {"query": sig, "index": idx})
        elif nm in ("find", "exists", "get") and f.params:
            fs = F.feeds(f, lambda g, n: last(n.get("f", "")) in ("find", "at", "count") and call_obj(g, n) is not None
                         and "elements_" in "".join(F.term(g, call_obj(g, n), {})))
            ok = bool(fs) and all({norm2(t) for t in F.args(x)} == {"P0"} for x in fs)
            c.ob("query-faithful", ok, f.loc(), sig, "%s does not look up the id it was given" % f.name, {"query": sig})
    c.rule("search-exhaustive", "searches with a predicate end only at the first accepted element or when there is none left", 4)
    for f in lib:
        if f.loc().startswith("lanelet2_core/src/LaneletMap") and any(last(n.get("f", "")) in ("qbegin",) for n in f.calls()):
            for n, st in P.returns(f):
                v = unwrap(f, n["c"][0]) if n.get("c") else None
                if v is None:
                    continue
                empty = not [x for x in wk(f, v) if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") in ("Var", "Parm")]
                if empty:
                    ok = any(y[0] == "empty" and y[2] or y[0] == "isend" and y[2] or y[0] == "true" and y[2] and y[1].endswith("empty()") or
                             y[0] == "eq" and y[2] and "qend()" in y[1] for y in st)
                    c.ob("search-exhaustive", ok, f.loc(n), f.name, "%s gives up although the index may have more elements" % f.name, {"function": f.name})
            for n in f.calls():
                if last(n.get("f", "")) in ("find_if", "for_each") and "std::" in n["f"]:
                    for g in P.lambdas(f.node(call_args(f, n)[2])) if f.node(call_args(f, n)[2])["k"] == "LambdaExpr" else ():
                        for r in g.all("ReturnStmt"):
                            v = unwrap(g, r["c"][0])
                            calls = [x for x in wk(g, v) if x["k"] in CALLS and x.get("op") == "()"]
                            ok = len(calls) == 1 and v["i"] == calls[0]["i"]
                            a = [P.key(g, x) for x in calls[0]["c"][2:]] if calls else []
                            ok = ok and len(a) == 2 and a[0].endswith(".first") and a[1].endswith(".second")
                            if not calls:
                                c.note("%s: predicate at %s not classified" % (f.name, g.loc(r)))
                            else:
                                c.ob("search-exhaustive", ok, g.loc(r), f.name + ".predicate", "%s does not hand each candidate with its extent to the predicate as is" % f.name,
                                     {"function": f.name})
    for f in lib:
        for n in f.calls():
            if last(n.get("f", "")) == "nearestUntil" and f.short == "findNearestImpl":
                for g, en in [y for a in call_args(f, n) for y in F.lam_of(f, a, {})]:
                    for r, st in P.returns(g):
                        v = unwrap(g, r["c"][0])
                        if v.get("v") in (False, "false", 0) or is_bool(v, False):
                            continue
                        # "nothing is wanted at all" is as good as "far enough": look past tests for emptiness in the alternatives
                        st = set(st)
                        for i in up(g, r):
                            if i["k"] == "IfStmt" and i.get("c"):
                                cn = next((x for x in kids(i) if x["k"] not in ("CompoundStmt", "ReturnStmt", "DeclStmt")), None)
                                if cn is not None:
                                    st |= past_empty(P, g, cn)
                                break
                        full = any(y[0] == "true" and y[2] and y[1].endswith(".full()") for y in st)
                        far = any(y[0] == "cmp" and y[2] and re.search(r"back\(\)\.first", y[1]) and re.search(r">", y[1]) and not y[1].startswith(("v:closest",)) for y in st)
                        c.ob("search-exhaustive", full and far, g.loc(r), "findNearest", "findNearest ends the search although closer elements may follow", {"function": f.name})

    # -------------------------------------------------- users of both orientations
    c.rule("usage-both-directions", "looking up what uses a point follows the line strings in both directions", 2)
    fl = Flow(P)
    for f in lib:
        if f.name in ("lanelet::utils::findUsagesInLanelets", "lanelet::utils::findUsagesInAreas"):
            dirs = set()
            fs = F.feeds(f, lambda g, n: last(n.get("f", "")) == "findUsages")
            for x in fs:
                a = x["argn"]
                if a and kind(x["f"].type(x["f"].node(a[0]))) == "LineString3d":
                    inv = any(y["k"] in CALLS and last(y.get("f", "")) == "invert" for y in wk(x["f"], a[0]))
                    if not F.skips(x):
                        dirs.add(inv)
            c.ob("usage-both-directions", dirs == {True, False}, f.loc(), f.name, "%s looks up line strings in %s direction only" % (f.name, "forward" if dirs == {False} else "one"),
                 {"function": f.name})

    # -------------------------------------------------- keys are final before they are indexed
    c.rule("keys-final", "what serves as a key of the usage index has its id before the element is entered into its layer", 10)
    for f in lib:
        if f.name != "lanelet::LaneletMap::add" or not f.params:
            continue
        k = kind(f.ptype(f.params[0]))
        if not PARTS.get(k):
            continue
        K = "v:" + f.params[0]["id"]
        fs = F.feeds(f, lambda g, n: n.get("f") == "lanelet::LaneletMap::add" or last(n.get("f", "")) in ("setId", "apply_visitor", "applyVisitor") or
                     re.match(r"lanelet::(PrimitiveLayer|AreaLayer|LaneletLayer)::add$", n.get("f") or ""))
        self_ = [x for x in fs if re.match(r"lanelet::(PrimitiveLayer|AreaLayer|LaneletLayer)::add$", x["call"].get("f") or "")]
        ex = lambda facts: any(y[0] == "true" and y[2] and ".exists(" in y[1] for y in facts)
        valid = lambda facts: ex(facts) or any(y[0] == "eq" and y[2] is False and "lanelet::InvalId" in y[1] for y in facts)
        for parts in PARTS[k].values():
            for part in parts:
                if k == "RegulatoryElement":
                    for kk in ("Point3d", "LineString3d", "Polygon3d", "Lanelet", "Area"):
                        ok = False
                        for x in fs:
                            nm = last(x["call"].get("f", ""))
                            if nm not in ("apply_visitor", "applyVisitor") or not all(before(P, x["outer"], s["outer"]) or loop_before(P, F, x, s) for s in self_):
                                continue
                            v = vclass(x["f"], x["argn"][0])
                            for g in lib:
                                if isv(g, v) and g.short == "operator()" and g.params and kind(g.ptype(g.params[0])) == kk:
                                    e = lambda facts: valid(facts) or any(y[0] == "expired" and y[2] or y[0] == "true" and y[2] and y[1].endswith("expired()") for y in facts)
                                    if any(not F.skips(y, e) for y in F.feeds(g, lambda h, n: last(n.get("f", "")) == "setId" or n.get("f") == "lanelet::LaneletMap::add")):
                                        ok = ok or not F.skips(x, ex)
                        c.ob("keys-final", ok, f.loc(), "%s.%s" % (k, kk), "LaneletMap::add(RegulatoryElement) indexes a parameter of type %s that may not have an id yet" % kk,
                             {"type": k, "parameter": kk})
                    continue
                xs = [x for x in fs if (x["call"].get("f") == "lanelet::LaneletMap::add" and part in {norm2(t) for t in F.args(x)}) or
                      (last(x["call"].get("f", "")) == "setId" and part in {norm2(t) for t in F.term(x["f"], call_obj(x["f"], x["call"]), x["env"])})]
                ok = any(not F.skips(x, valid) and all(before(P, x["outer"], s["outer"]) or loop_before(P, F, x, s) for s in self_) for x in xs)
                c.ob("keys-final", ok, f.loc(), "%s.%s" % (k, part), "LaneletMap::add(%s) indexes %s before it is certain to have an id" % (k, part.replace("P0", "its element")),
                     {"type": k, "part": part})


def elem_of(f):
    for t in [f.ret()] + [f.ptype(p) for p in f.params]:
        k = kind(t)
        if k:
            return k
    m = re.search(r"PrimitiveLayer<([^>]*)>", f.id)
    return "?"


def unguarded(P, outer, new):
    """can the innermost call be reached without passing an edge on which the element is known to be new"""
    for f, n in outer:
        w = P.where(f, n)
        if w is None:
            continue
        B = f.cfg["blocks"]
        seen, st, hit = set(), [f.cfg["entry"]], False
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if b == w[0]:
                hit = True
                break
            if throws(f, B[b]):
                continue
            for si, s in enumerate(B[b]["s"]):
                if s is not None and not new(edge_facts(P, f, b, si)):
                    st.append(s)
        if not hit:
            return False
    return True


def loop_before(P, F, x, s):
    """x is performed in a loop (for every element) that lies before s on every path"""
    a, b = x["outer"], s["outer"]
    i = 0
    while i < len(a) and i < len(b) and a[i][0].id == b[i][0].id and a[i][1]["i"] == b[i][1]["i"]:
        i += 1
    if i >= len(a) or i >= len(b) or a[i][0].id != b[i][0].id:
        return False
    f, n, m = a[i][0], a[i][1], b[i][1]
    ls = [l for l in loops(f) if n["i"] in subtree_ids(body_of(f, l) or {"i": -1, "c": []})]
    if not ls:
        # conditional on its own: before means it cannot come after
        return not reaches_from(P, f, m, n)
    ls.sort(key=lambda l: -len(subtree_ids(l)))
    h = loop_head(P, f, ls[0])
    w = P.where(f, m)
    if h is None or w is None:
        return False
    # every path from the entry to m passes the loop head, and m cannot be followed by the loop
    B = f.cfg["blocks"]
    seen, st = set(), [f.cfg["entry"]]
    while st:
        b_ = st.pop()
        if b_ in seen or b_ == h:
            continue
        seen.add(b_)
        if b_ == w[0]:
            return False
        st += [y for y in B[b_]["s"] if y is not None]
    return not reaches_from(P, f, m, n)


def reaches_from(P, f, a, b):
    w, v = P.where(f, a), P.where(f, b)
    if w is None or v is None:
        return False
    if w[0] == v[0] and v[1] > w[1]:
        return True
    B = f.cfg["blocks"]
    seen, st = set(), [y for y in B[w[0]]["s"] if y is not None]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == v[0]:
            return True
        st += [y for y in B[x]["s"] if y is not None]
    return False


def tree_complete(P, F, f, nobox):
    """what the r-tree is built from contains every element"""
    for n in f.nodes.values():
        src = None
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["c"]) == 3:
            l = unwrap(f, n["c"][1])
            if l["k"] == "MemberExpr" and last(l["m"]) == "rTree":
                src = n["c"][2]
        elif n["k"] in CALLS and last(n.get("f", "")) == "insert" and call_obj(f, n) is not None:
            o = unwrap(f, call_obj(f, n))
            if o["k"] == "MemberExpr" and last(o["m"]) == "rTree":
                a = call_args(f, n)
                if len(a) == 1 and any(re.search(r"P0\[\]\.second", t) for t in F.term(f, a[0], {})):
                    s = F.skip(f, n, nobox)
                    return (not s), s or ""
                src = a[0]
        if src is None:
            continue
        s = f.node(src)
        s = unwrap(f, s)
        while s["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and s.get("c"):
            s = unwrap(f, s["c"][0])
        ts = F.elems(f, s, {})
        if not any(norm(t) == "P0[].second" for t in ts):
            return False, "it is built from %s" % "|".join(sorted(ts))[:100]
        if s["k"] == "DeclRefExpr":
            vid = s["d"]["id"]

            def want(h, m):
                if m["k"] in CALLS and last(m.get("f", "")) in ("push_back", "emplace_back", "insert"):
                    o = call_obj(h, m)
                    return o is not None and F.rootid(h, o) == vid
                return False
            for x in F.feeds(f, want, grow=True):
                sk = F.skips(x, nobox)
                if sk:
                    return False, sk[0][2]
        return True, ""
    for i in f.d.get("inits", ()):
        n = next((i[z] for z in ("c", "e", "init") if i.get(z) is not None), None)
        if last(i.get("m") or i.get("n") or "") == "rTree" and n is not None and any(x["k"] == "DeclRefExpr" for x in wk(f, f.node(n))):
            return True, ""
    return False, "it is never filled"
