"""C04: a map contains everything its elements refer to."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from ..feeds import Feeds, last
from .C03 import reaches, strip

KIND = {"Lanelet": "laneletLayer", "Area": "areaLayer", "RegulatoryElement": "regulatoryElementLayer", "Polygon3d": "polygonLayer",
        "LineString3d": "lineStringLayer", "Point3d": "pointLayer"}
OWNS = {"Lanelet": ["leftBound", "rightBound", "centerline", "regulatoryElements[]"], "Area": ["outerBound[]", "innerBounds[][]", "regulatoryElements[]"],
        "LineString3d": ["[]"], "Polygon3d": ["[]"], "Point3d": [], "RegulatoryElement": []}
CTOR = ["laneletLayer", "areaLayer", "regulatoryElementLayer", "polygonLayer", "lineStringLayer", "pointLayer"]


def kind(t):
    t = re.sub(r"\b(const|class|struct)\b|&|\*", "", t or "").strip()
    for k in KIND:
        if re.search(r"^(std::shared_ptr<|std::vector<)?lanelet::(Const|Weak|ConstWeak)?%s>?$" % k, re.sub(r"\bconst\b|\s", "", t)) or t in ("lanelet::" + k + "Ptr",):
            return k
    m = re.search(r"lanelet::(Const)?(Weak)?(Lanelet|Area|Polygon3d|LineString3d|Point3d|RegulatoryElement)\b(?!Map|Layer)", t)
    return m.group(3) if m else None


def norm(t):
    """spelling variants of the same thing"""
    t = re.sub(r"\.(constData|data|get|lock)\b", "", t)
    t = re.sub(r"\b(leftBound|rightBound|centerline)(2d|3d|_)\b", r"\1", t)
    t = re.sub(r"\b(outerBound|innerBounds)_\b", r"\1", t)
    return re.sub(r"\.id$", "", t).replace(".[]", "[]")


def sub(base, o):
    return base + o if o.startswith("[]") else base + "." + o


def run(c):
    P = c.program("core", "io", "routing")
    lib = [f for f in P.lib() if not f.flag("dep")]
    core = [f for f in lib if f.loc().startswith("lanelet2_core/")]

    def inl(g):
        return not g.flag("dep") and g.loc().startswith(("lanelet2_core/src/LaneletMap", "lanelet2_core/include/lanelet2_core/LaneletMap",
                                                         "lanelet2_core/include/lanelet2_core/utility/Utilities"))
    F = Feeds(P, inline=inl)

    def mapadd(n):
        return n.get("f") == "lanelet::LaneletMap::add"

    def layeradd(n):
        q = n.get("f") or ""
        return last(q) == "add" and re.match(r"lanelet::(PrimitiveLayer|AreaLayer|LaneletLayer)::add", q)

    adds = {}
    for f in core:
        if f.name == "lanelet::LaneletMap::add" and f.params:
            adds[kind(f.ptype(f.params[0]))] = f
    if len(adds) < 6:
        raise AnalysisBroken("only %d overloads of LaneletMap::add found" % len(adds))

    def terms(x, i=0):
        return {norm(t) for t in F.args(x, i)}

    def known(f, layer, extra=None):
        """edges on which the element is in its layer already, or that do not concern the obligation"""
        K = "v:" + f.params[0]["id"]

        def prune(facts):
            for y in facts:
                if y[0] == "true" and y[2] and ".exists(" in y[1] and layer in y[1] and strip(K) + ".id()" in y[1]:
                    return True
                if extra and extra(y):
                    return True
            return False
        return prune

    def nocustom(y):
        return y[0] == "true" and y[2] is False and y[1].endswith("hasCustomCenterline()")

    # -------------------------------------------------- additions
    c.rule("added-with-owner", "adding an element to a map adds everything it owns or refers to, on every path on which the element itself is new", 12)
    c.rule("added-itself", "adding an element to a map enters it into the layer of its kind, on every path on which it is not there already", 6)
    c.rule("cycle-guard", "elements that can refer back to themselves are recognised when met again and are entered into their layer before what they "
           "refer to is followed", 6)
    for k, f in sorted(adds.items(), key=lambda x: str(x[0])):
        if k is None:
            continue
        fs = F.feeds(f, lambda g, n: mapadd(n) or layeradd(n) or last(n.get("f", "")) in ("applyVisitor", "apply_visitor"))
        self_ = [x for x in fs if layeradd(x["call"]) and terms(x) == {"P0"}]
        pr = known(f, KIND[k])
        ok = [x for x in self_ if not F.skips(x, pr)]
        why = "; ".join(s[2] for x in self_ for s in F.skips(x, pr)) or "no such call"
        c.ob("added-itself", bool(ok), f.loc(), k, "LaneletMap::add(%s) does not enter the element into its layer on every path (%s)" % (k, why), {"type": k})
        for o in OWNS[k]:
            want = sub("P0", o)
            p2 = known(f, KIND[k], nocustom if o == "centerline" else None)
            xs = [x for x in fs if mapadd(x["call"]) and want in terms(x)]
            # the same for everything held in one range or not at all
            ok = [x for x in xs if not F.skips(x, p2)]
            why = "; ".join(s[2] for x in xs for s in F.skips(x, p2)) or "it is never added"
            c.ob("added-with-owner", bool(ok), f.loc(), "%s.%s" % (k, o), "LaneletMap::add(%s) does not add %s of the element on every path (%s)" % (k, o, why),
                 {"type": k, "part": o})
        follow = [x for x in fs if (mapadd(x["call"]) and any("regulatoryElements" in t for t in terms(x)))]
        if k == "RegulatoryElement":
            vis = []
            for x in fs:
                nm = last(x["call"].get("f", ""))
                if nm == "applyVisitor":
                    o = call_obj(x["f"], x["call"])
                    if o is not None and "P0" in {norm(t) for t in F.term(x["f"], o, x["env"])} and x["argn"]:
                        vis.append((x, vclass(x["f"], x["argn"][0])))
                elif nm == "apply_visitor" and len(x["argn"]) > 1:
                    if any(re.match(r"P0(\.getParameters)?\[\]\.second\[\]$", norm(t)) for t in F.args(x, 1)):
                        vis.append((x, vclass(x["f"], x["argn"][0])))
            good = []
            for x, v in vis:
                handled = set()
                for g in lib:
                    if isv(g, v) and g.short == "operator()" and g.params:
                        kk = kind(g.ptype(g.params[0]))
                        gs = F.feeds(g, lambda h, n: mapadd(n))
                        e = lambda facts: any(y[0] == "expired" and y[2] or y[0] == "true" and y[2] and y[1].endswith("expired()") for y in facts)
                        if any(terms(y) == {"P0"} and not F.skips(y, e) for y in gs):
                            handled.add(kk)
                if handled:
                    good.append((x, v, handled))
            for kk in ("Point3d", "LineString3d", "Polygon3d", "Lanelet", "Area"):
                xs = [x for x, v, h in good if kk in h and not F.skips(x, pr)]
                c.ob("added-with-owner", bool(xs), f.loc(), "RegulatoryElement." + kk,
                     "LaneletMap::add(RegulatoryElement) does not add parameters of type %s on every path" % kk, {"type": k, "part": "parameters of type " + kk})
            follow = [x for x, v, h in good]
        if k in ("Lanelet", "Area", "RegulatoryElement"):
            c.ob("cycle-guard", bool(self_) and all(any(before(P, s["outer"], x["outer"]) for s in self_) for x in follow), f.loc(), k + ".order",
                 "LaneletMap::add(%s) follows references before the element is in its layer: a cyclic reference does not end" % k, {"type": k, "what": "order"})
            K = "v:" + f.params[0]["id"]

            def fresh(facts):
                for y in facts:
                    if y[0] == "true" and y[2] is False and ".exists(" in y[1] and KIND[k] in y[1] and strip(K) + ".id()" in y[1]:
                        return True
                    if y[0] == "isend" and y[2] and ".find(" in y[1] and KIND[k] in y[1] and strip(K) + ".id()" in y[1]:
                        return True
                    if y[0] == "eq" and y[2] and "lanelet::InvalId" in y[1] and strip(K) + ".id()" in y[1]:
                        return True
                return False
            bad = [x for x in follow + self_ if reach_without(P, f, x["outer"][0][1], fresh)]
            # a helper may decide; look through it
            if bad and any(n for n in f.calls() for g in P.targets(n) if inl(g) and any(last(m.get("f", "")) == "exists" for m in g.calls())):
                c.note("LaneletMap::add(%s): the test for elements already in the map is in a helper, not decided" % k)
            else:
                c.ob("cycle-guard", not bad, f.loc(), k + ".guard",
                     "LaneletMap::add(%s) processes an element again that is in its layer already: a cyclic reference does not end" % k, {"type": k, "what": "guard"})

    # -------------------------------------------------- maps built at once
    c.rule("built-complete", "a map built from lists of elements contains, in the matching layers, the elements and everything they own or refer to", 12)
    c.rule("layers-from-arguments", "the map constructor fills each layer from the argument meant for it", 6)
    for f in core:
        if f.name == "lanelet::LaneletMapLayers::LaneletMapLayers" and len(f.params) == 6:
            inits = {last(i.get("m") or i.get("n") or ""): i for i in f.d.get("inits", ())}
            for i, l in enumerate(CTOR):
                it = inits.get(l)
                node = it.get("c", it.get("e", it.get("init"))) if it else None
                ids = [v for v in (vars_in(f, node) if node is not None else ())]
                c.ob("layers-from-arguments", bool(ids), f.loc(), l, "the constructor of LaneletMapLayers leaves %s empty" % l, {"layer": l})

    def is_build(g, n):
        if mapadd(n):
            return True
        q = n.get("f") or ""
        if last(q) in ("make_unique", "make_shared") and re.search(r"lanelet::LaneletMap\b|LaneletSubmap\b", g.type(n)):
            return len(call_args(g, n)) == 6
        return n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and last(q) in ("LaneletMap", "LaneletSubmap", "LaneletMapLayers") and len(call_args(g, n)) == 6

    def content(f):
        got = {l: set() for l in CTOR}
        whole = set()
        skipped = []
        for x in F.feeds(f, is_build):
            sk = F.skips(x)
            if sk:
                skipped.append((x, sk))
                continue
            if mapadd(x["call"]):
                whole |= {norm(t) for t in F.args(x)}
            else:
                for i, l in enumerate(CTOR):
                    for g in [None]:
                        got[l] |= {norm(t) for t in F.elems(x["f"], x["argn"][i], x["env"])}
        return got, whole, skipped

    def has(got, whole, layer, t):
        if t in got[layer] or t in whole:
            return True
        return False
    # pushes into the lists the layers are built from must not be skipped
    c.rule("lists-complete", "lists that become layers receive every element (hand-set centerlines only where there is one)", 3)
    builders = [f for f in core if re.match(r"lanelet::utils::create(Const)?(Map|Submap)$", f.name)] + \
        [f for f in core if f.name == "lanelet::LaneletSubmap::laneletMap"]
    if len(builders) < 8:
        raise AnalysisBroken("only %d functions that build maps found" % len(builders))
    for f in builders:
        sig = "%s(%s)" % (f.name, ",".join(str(kind(f.ptype(p))) for p in f.params)) + (" const" if f.flag("const") else "")
        submap = "Submap" in f.short
        got, whole, skipped = content(f)
        srcs = [("P%d[]" % i, kind(f.ptype(p))) for i, p in enumerate(f.params)]
        if f.short == "laneletMap":
            srcs = [("this.%s[]" % l, k) for k, l in KIND.items()]
        for b, k in srcs:
            if k is None:
                continue

            def ob(layer, t, what):
                ok = has(got, whole, layer, t)
                if not ok and whole:
                    # an owner added through LaneletMap::add brings it along
                    ok = any(t.startswith(w) and w and owned_by(t[len(w):]) for w in whole)
                why = "; ".join(s[2] for x, sk in skipped for s in sk)
                c.ob("built-complete", ok, f.loc(), sig + ":" + t, "%s leaves out %s of its arguments from %s%s" % (f.name, what, layer, " (%s)" % why if why else ""),
                     {"function": sig, "content": t, "layer": layer})
            ob(KIND[k], b, "the elements")
            if submap:
                continue
            if k in ("LineString3d", "Polygon3d"):
                ob("pointLayer", b + "[]", "the points")
            for o in OWNS[k]:
                if k in ("Lanelet", "Area"):
                    t = sub(b, o)
                    if o.startswith("regul"):
                        ok = t in whole
                        c.ob("built-complete", ok or b in whole, f.loc(), sig + ":" + t, "%s does not add the regulatory elements of its arguments" % f.name,
                             {"function": sig, "content": t})
                    else:
                        ob("lineStringLayer", t, o)
                        ob("pointLayer", t + "[]", "the points of " + o)
        if submap:
            fs = F.feeds(f, lambda g, n: last(n.get("f", "")) in ("trackParameters", "applyVisitor"))
            for b, k in srcs:
                if k in ("Lanelet", "Area"):
                    t = b + ".regulatoryElements[]"
                    xs = [x for x in fs if t in (terms(x) if last(x["call"]["f"]) == "trackParameters" else {norm(y) for y in F.term(x["f"], call_obj(x["f"], x["call"]), x["env"])})]
                    ok = any(not F.skips(x) for x in xs)
                    c.ob("built-complete", ok, f.loc(), sig + ":" + t, "%s does not keep the parameters of the regulatory elements of its %ss alive" % (f.name, k.lower()),
                         {"function": sig, "tracks": t})
        # the lists
        for g in [f]:
            for d in g.all("DeclStmt"):
                for v in d.get("vars", ()):
                    if re.search(r"vector<(lanelet::|std::shared_ptr<)", g.type(v)) and "&" not in g.type(v):
                        def want(h, n, vid=v["id"]):
                            if n["k"] in CALLS and last(n.get("f", "")) in ("push_back", "emplace_back", "insert", "emplace"):
                                o = call_obj(h, n)
                                return o is not None and F.rootid(h, o) == vid
                            return False
                        for x in F.feeds(g, want, grow=True):
                            ts = {norm(t) for a in range(len(x["argn"])) for t in F.args(x, a)}
                            cen = any("centerline" in t for t in ts)
                            sk = F.skips(x, (lambda facts: any(nocustom(y) for y in facts)) if cen else None)
                            c.ob("lists-complete", not sk, x["f"].loc(x["call"]), sig + ":" + "|".join(sorted(ts))[:80],
                                 "%s may leave out %s: %s" % (f.name, "|".join(sorted(ts)), "; ".join(s[2] for s in sk)), {"function": sig, "adds": sorted(ts)[:3]})

    # -------------------------------------------------- submaps
    c.rule("submap-tracks", "adding an element to a submap keeps the parameters of its regulatory elements alive", 3)
    for f in core:
        if f.name == "lanelet::LaneletSubmap::add" and f.params:
            k = kind(f.ptype(f.params[0]))
            fs = F.feeds(f, lambda g, n: last(n.get("f", "")) == "trackParameters" or layeradd(n))
            xs = [x for x in fs if layeradd(x["call"]) and terms(x) == {"P0"} and not F.skips(x)]
            c.ob("added-itself", bool(xs), f.loc(), "sub." + str(k), "LaneletSubmap::add(%s) does not enter the element into its layer on every path" % k, {"submap": k})
            want = {"Lanelet": "P0.regulatoryElements[]", "Area": "P0.regulatoryElements[]", "RegulatoryElement": "P0"}.get(k)
            if want:
                xs = [x for x in fs if last(x["call"]["f"]) == "trackParameters" and want in terms(x) and not F.skips(x)]
                c.ob("submap-tracks", bool(xs), f.loc(), str(k), "LaneletSubmap::add(%s) does not keep the parameters of the regulatory elements alive" % k, {"type": k})
        if f.name == "lanelet::LaneletSubmap::trackParameters":
            vis = [vclass(f, call_args(f, n)[0]) for n in f.calls() if last(n.get("f", "")) == "applyVisitor" and call_args(f, n)]
            for kk in ("Lanelet", "Area"):
                ok = False
                for g in lib:
                    if any(isv(g, v) for v in vis) and g.short == "operator()" and g.params and kind(g.ptype(g.params[0])) == kk:
                        e = lambda facts: any(y[0] == "expired" and y[2] or y[0] == "true" and y[2] and y[1].endswith("expired()") for y in facts)
                        for n in g.calls():
                            if last(n.get("f", "")) in ("emplace_back", "push_back") and not F.skip(g, n, e):
                                ok = True
                c.ob("submap-tracks", ok, f.loc(), "track." + kk, "LaneletSubmap::trackParameters does not keep parameters of type %s alive" % kk, {"parameter": kk})


def owned_by(rest):
    return bool(re.match(r"^(\[\]|\.(leftBound|rightBound|centerline|outerBound\[\]|innerBounds\[\]\[\]))(\[\])?$", rest))


def isv(g, v):
    """g is a member of the class a type name denotes"""
    v = v.replace("(anonymous namespace)", "(anon)")
    return bool(g.cls) and (g.cls == v or g.cls.endswith("::" + v))


def vclass(f, n):
    t = re.sub(r"\b(const|class|struct)\b|&|\*", "", f.type(unwrap(f, n))).strip()
    return t


def vars_in(f, n):
    from .V02 import wk
    n = f.node(n) if not isinstance(n, list) else None
    return [x for x in (wk(f, n) if n is not None else ()) if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") == "Parm"]


def before(P, a, b):
    """is the call of chain a performed before that of chain b on every path"""
    i = 0
    while i < len(a) and i < len(b) and a[i][0].id == b[i][0].id and a[i][1]["i"] == b[i][1]["i"]:
        i += 1
    if i >= len(a) or i >= len(b) or a[i][0].id != b[i][0].id:
        return False
    f, x, y = a[i][0], a[i][1], b[i][1]
    return not reaches(P, f, y, lambda m: m["i"] == x["i"])


def reach_without(P, f, n, fresh):
    """path from the entry to n without an edge on which fresh(facts)"""
    w = P.where(f, n)
    if w is None:
        return False
    seen, st = set(), [f.cfg["entry"]]
    B = f.cfg["blocks"]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == w[0]:
            return True
        if throws(f, B[b]):
            continue
        for si, s in enumerate(B[b]["s"]):
            if s is None or fresh(edge_facts(P, f, b, si)):
                continue
            st.append(s)
    return False
