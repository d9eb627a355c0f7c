"""V02: tag validators look at every element, with well-formed tables that contain every documented value."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from .V01 import literal, bases, in_validation, vtype

# what the documentation (lanelet2_core/doc/*Tagging.md, RegulatoryElementTagging.md) and the rules of the library know
TYPE = {"LineString": {"arrow", "bike_marking", "bump", "curbstone", "door", "fence", "gate", "guard_rail", "jersey_barrier",
                       "keepout", "lift_gate", "line_thick", "line_thin", "pedestrian_marking", "rail", "road_border",
                       "stop_line", "traffic_light", "traffic_sign", "virtual", "wall", "zebra_marking", "zig-zag"},
        "Point": {"dot", "end", "pole", "post", "start"}, "Lanelet": {"lanelet"}, "Area": {"multipolygon"},
        "RegulatoryElement": {"regulatory_element"}}
SUB = {"Lanelet": {"bicycle_lane", "bus_lane", "crosswalk", "emergency_lane", "exit", "highway", "play_street", "road",
                   "shared_walkway", "stairs", "walkway"}}
SUB["Area"] = SUB["Lanelet"] | {"building", "freespace", "keepout", "parking", "traffic_island", "vegetation"}
LINE = {"dashed", "dashed_solid", "solid", "solid_dashed", "solid_solid"}
LSUB = {"line_thick": LINE, "line_thin": LINE, "curbstone": {"high", "low"},
        "arrow": {"left", "left_right", "right", "straight", "straight_left", "straight_right"},
        "traffic_light": {"red", "red_yellow", "red_yellow_green"}}
LOC = {"nonurban", "private", "urban"}
TAGS = {"Point": {"ele", "type", "subtype"},
        "LineString": {"type", "subtype", "lane_change", "width", "height", "temporary", "color"},
        "Lanelet": {"type", "subtype", "one_way", "region", "speed_limit", "location", "participant"},
        "Area": {"type", "subtype", "region", "speed_limit", "location"},
        "RegulatoryElement": {"type", "subtype", "dynamic", "fallback", "sign_type"}}
MAND = {"LineString": {"type"}, "Lanelet": {"type", "subtype", "location"}, "Area": {"type", "subtype", "location"},
        "RegulatoryElement": {"type", "subtype"}}
BOOLS = {"one_way", "dynamic", "lane_change", "participant", "fallback", "temporary"}
ALL = {"Point", "LineString", "Lanelet", "Area", "RegulatoryElement"}
VALIDATORS = {"mapping.unknown_tags": ALL, "mapping.unknown_tag_value": ALL, "mapping.mandatory_tags": ALL - {"Point"},
              "mapping.bool_tags": ALL - {"Point"}}
PRIM = "lanelet::validation::Primitive::"


class Unknown(Exception):
    pass


def elem_kind(t):
    t = t.replace("const ", "")
    for k, pat in (("RegulatoryElement", r"RegulatoryElement\b"), ("Point", r"\bConstPoint\dd\b|\bPoint\dd\b|PointData"),
                   ("LineString", r"LineString\dd\b|LineStringData"), ("Polygon", r"Polygon\dd\b"),
                   ("Lanelet", r"\b(Const)?Lanelet\b|LaneletData"), ("Area", r"\b(Const)?Area\b|AreaData")):
        if re.search(pat, t):
            return k
    return None


class Eval:
    """value of constant expressions: strings, lists, pairs, maps (as lists of pairs)"""

    def __init__(self, P):
        self.P = P

    def var(self, q, depth=0):
        if q not in self.P.vars:
            c = [k for k in self.P.vars if k.split("@")[0] == q]
            if len(c) != 1:
                raise Unknown(q)
            q = c[0]
        v = self.P.vars[q]
        if "init" not in v:
            raise Unknown(q)
        return self.raw(v["init"], depth + 1)

    def raw(self, n, depth=0):
        """evaluates a stored initialiser tree"""
        if depth > 40 or not isinstance(n, dict):
            raise Unknown("depth")
        k = n["k"]
        c = [x for x in n.get("c", ()) if x is not None]
        if k == "StringLiteral":
            return n["v"]
        if k in ("DeclRefExpr", "MemberExpr") and (n.get("d") or {}).get("k") not in ("Function", "CXXMethod"):
            q = (n.get("d") or {}).get("n") or n.get("m")
            return self.var(q, depth)
        if k in ("InitListExpr", "CXXStdInitializerListExpr"):
            if k == "CXXStdInitializerListExpr" and len(c) == 1:
                return self.raw(c[0], depth + 1)
            return [self.raw(x, depth + 1) for x in c if x["k"] != "ImplicitValueInitExpr"]
        if k == "CXXOperatorCallExpr" and n.get("op") == "+" or (n.get("f") or "").endswith("operator+"):
            a = [self.raw(x, depth + 1) for x in c[1:]]
            if len(a) == 2 and all(isinstance(x, str) for x in a):
                return a[0] + a[1]
            raise Unknown("operator+")
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXBindTemporaryExpr", "ExprWithCleanups",
                 "MaterializeTemporaryExpr", "ParenExpr", "ConstantExpr", "CXXStaticCastExpr", "CXXMemberCallExpr", "CallExpr"):
            if k in ("CXXMemberCallExpr", "CallExpr"):
                if short_of(n.get("f", "")) not in ("move", "make_pair", "basic_string"):
                    raise Unknown(n.get("f"))
                c = c[1:]
            a = [self.raw(x, depth + 1) for x in c if x["k"] not in ("CXXDefaultArgExpr",)]
            f = n.get("f", "")
            if f.startswith("std::pair::") or short_of(f) == "make_pair":
                return a[0] if len(a) == 1 else tuple(a)
            if f.startswith("std::vector::") or f.startswith("std::map::") or f.startswith("std::set::") or "initializer_list" in f:
                if not a:
                    return []
                return a[0] if isinstance(a[0], list) else list(a)
            if len(a) == 1:
                return a[0]
            if not a:
                return ""
            raise Unknown(f)
        if len(c) == 1:
            return self.raw(c[0], depth + 1)
        raise Unknown(k)


def wk(f, n):
    n = f.node(n)
    yield n
    for x in kids(n):
        yield from wk(f, x)


def short_of(q):
    return q.split("::")[-1] if q else ""


def run(c):
    P = c.program("core", "io", "projection", "traffic_rules", "routing", "validation")
    E = Eval(P)
    lib = {f.id: f for f in P.lib() if in_validation(f) and not f.flag("dep")}

    # ---------------------------------------------------------------- tables
    def table_of_func(f):
        """constant table a function hands out"""
        rets = [n for n in f.all("ReturnStmt") if n.get("c")]
        if len(rets) != 1:
            return None
        n = unwrap(f, rets[0]["c"][0])
        d = (n or {}).get("d") or {}
        if n is not None and n["k"] == "DeclRefExpr" and d.get("k") == "Global":
            return d["n"]
        return None

    cache = {}

    def table(q):
        if q not in cache:
            try:
                cache[q] = E.var(q)
            except Unknown as e:
                c.note(f"contents of {q} not evaluated ({e}): undecided")
                cache[q] = None
        return cache[q]

    def is_map(t):
        return isinstance(t, list) and t and all(isinstance(x, tuple) and len(x) == 2 for x in t)

    # ---------------------------------------------------------------- the elements each validator looks at
    vals = {}
    for r in P.recbyname:
        f = P.byname.get(r + "::name")
        if not f or not r.startswith("lanelet::validation::"):
            continue
        lit = literal(P, f[0])
        if lit in VALIDATORS:
            ops = P.byname.get(r + "::operator()")
            if ops:
                vals[lit] = (r, ops[0])
    if not vals:
        raise AnalysisBroken("no tag validator found")

    def attr_obj(f, n, env, depth=0):
        """element type whose attributes() the expression yields"""
        n = unwrap(f, f.node(n))
        if n is None or depth > 5:
            return None
        if n["k"] in CALLS and short_of(n.get("f", "")) == "attributes":
            o = call_obj(f, n)
            return elem_kind(f.type(o)) if o is not None else None
        v = n.get("d", {}).get("id") if n["k"] == "DeclRefExpr" else None
        if v:
            if v in env:
                g, m, e2 = env[v]
                return attr_obj(g, m, e2, depth + 1)
            d = f.vardef(v)
            if d is not None:
                return attr_obj(f, d, env, depth + 1)
        return None

    def table_arg(f, n, env, depth=0):
        n = unwrap(f, f.node(n))
        if n is None or depth > 5:
            return None
        d = n.get("d") or {}
        if n["k"] == "DeclRefExpr" and d.get("k") == "Global":
            return d["n"]
        if n["k"] in CALLS:
            for g in P.targets(n):
                q = table_of_func(g)
                if q:
                    return q
            return None
        v = d.get("id")
        if v:
            if v in env:
                g, m, e2 = env[v]
                return table_arg(g, m, e2, depth + 1)
            df = f.vardef(v)
            if df is not None:
                return table_arg(f, df, env, depth + 1)
        return None

    def prim_arg(f, n, env, depth=0):
        n = unwrap(f, f.node(n))
        d = (n or {}).get("d") or {}
        q = d.get("n", "")
        if d.get("k") in ("Enum", "EnumConstant") and q.startswith(PRIM):
            return q[len(PRIM):]
        v = d.get("id")
        if v and v in env and depth < 5:
            g, m, e2 = env[v]
            return prim_arg(g, m, e2, depth + 1)
        return None

    ISATTR = re.compile(r"HybridMap<lanelet::Attribute\b|\bAttributeMap\b")
    ISTAB = re.compile(r"(vector|map|set|initializer_list)<std::(__cxx11::)?basic_string")

    def sites(f, env, depth, seen):
        """(kind, table, primitive, consumer, call) of the calls that examine one element's attributes"""
        if depth > 6 or f.id in seen:
            return
        seen = seen | {f.id}
        for n in f.calls():
            a = list(call_args(f, n))
            at = [x for x in a if x is not None and ISATTR.search(f.type(x))]
            tg = [g for g in P.targets(n) if g.id in lib]
            if at and tg and attr_obj(f, at[0], env):
                tb, pr = None, None
                for x in a:
                    t = f.type(x)
                    if ISTAB.search(t) and not ISATTR.search(t):
                        tb = table_arg(f, x, env)
                    if "validation::Primitive" in t:
                        pr = prim_arg(f, x, env)
                hastab = any(ISTAB.search(f.type(x)) and not ISATTR.search(f.type(x)) for x in a)
                yield attr_obj(f, at[0], env), tb, hastab, pr, tg[0], f, n
                continue
            for g in tg:
                e2 = {}
                for p, x in zip(g.params, a):
                    if x is not None:
                        e2[p["id"]] = (f, x, env)
                yield from sites(g, e2, depth + 1, seen)
        for n in f.all("LambdaExpr"):
            for g in P.lambdas(n):
                yield from sites(g, dict(env), depth + 1, seen)

    c.rule("layers", "each tag validator examines every kind of element that can carry the tags it is about", 4)
    c.rule("primitive", "an issue is reported with the kind of the element that was examined", 0)
    c.rule("contents", "the known and mandatory tags and values used for a kind of element contain every documented one", 0)
    c.rule("sorted", "tables searched by bisection are sorted and values are not repeated", 0)
    c.rule("mandatory-known", "mandatory tags, and tags whose values are restricted, are known tags of the same kind of element", 0)
    consumers = {}
    perkind = {}
    for name, (r, op) in sorted(vals.items()):
        S = list(sites(op, {}, 0, frozenset()))
        kinds = {s[0] for s in S}
        if not S:
            c.note(f"{r}: no attribute examination recognised, undecided")
            continue
        for k in sorted(VALIDATORS[name]):
            c.ob("layers", k in kinds, op.loc(), f"{r}:{k}", f"{r} never looks at the tags of {k}s")
        for kind, tb, hastab, pr, g, f, n in S:
            consumers[g.id] = (g, hastab)
            if pr:
                c.ob("primitive", pr == kind, f.loc(n), f"{r}:{kind}:{pr}", f"{r} reports issues of {kind}s as {pr}")
            if hastab and tb:
                perkind.setdefault(name, {})[kind] = (tb, f.loc(n))
    for name, d in perkind.items():
        for kind, (tb, loc) in sorted(d.items()):
            t = table(tb)
            if t is None:
                continue
            sname = tb.split("(anon)::")[-1]
            if is_map(t):
                m = {}
                for k, v in t:
                    m.setdefault(k, v)
                want = {"type": TYPE.get(kind, set())}
                if kind in SUB:
                    want["subtype"] = SUB[kind]
                    want["location"] = LOC
                if kind == "LineString":
                    for k, v in LSUB.items():
                        if k + "subtype" in m:
                            want[k + "subtype"] = v
                for k, v in sorted(want.items()):
                    if k not in m:
                        continue
                    miss = v - set(m[k])
                    c.ob("contents", not miss, loc, f"{sname}:{k}", f"{sname}: values of {k} lack {sorted(miss)}", f"{sname}[{k}]")
                foreign = {"Lanelet": {"multipolygon", "regulatory_element"}, "Area": {"lanelet", "regulatory_element"},
                           "RegulatoryElement": {"lanelet", "multipolygon"}}.get(kind, set()) & set(m.get("type", ()))
                c.ob("contents", not foreign, loc, f"{sname}:type:foreign", f"{sname}, used for {kind}s, accepts the type {sorted(foreign)}")
            elif isinstance(t, list):
                want = MAND.get(kind, set()) if name == "mapping.mandatory_tags" else TAGS.get(kind, set())
                miss = want - set(t)
                c.ob("contents", not miss, loc, f"{sname}:{name}", f"{sname}, used for {kind}s by {name}, lacks {sorted(miss)}", sname)
                if name == "mapping.mandatory_tags":
                    extra = set(t) - want
                    c.ob("contents", not extra, loc, f"{sname}:{name}:extra", f"{sname} makes {sorted(extra)} mandatory for {kind}s")
    tagsof = {k: table(v[0]) for k, v in perkind.get("mapping.unknown_tags", {}).items()}
    for name in ("mapping.mandatory_tags", "mapping.unknown_tag_value"):
        for kind, (tb, loc) in sorted(perkind.get(name, {}).items()):
            t, kn = table(tb), tagsof.get(kind)
            if t is None or kn is None:
                continue
            tags = {k for k, _ in t} if is_map(t) else set(t)
            tags = {x for x in tags if not (is_map(t) and x.endswith("subtype") and x != "subtype")}
            bad = {x for x in tags if not any(x.startswith(y) for y in kn)}
            c.ob("mandatory-known", not bad, loc, f"{kind}:{name}", f"{sorted(bad)} of {tb} are not known tags of {kind}s")

    # ---------------------------------------------------------------- sortedness
    def search_kind(f):
        for n in f.calls():
            if n.get("mac") == "assert":
                continue
            if short_of(n.get("f", "")) in ("binary_search", "lower_bound", "upper_bound", "equal_range") and n["f"].startswith("std::") \
                    and not re.match(r"std::(map|set)", n["f"]):
                return n
        return None
    for name, d in perkind.items():
        for kind, (tb, loc) in sorted(d.items()):
            cons = [g for g, _ in consumers.values() if search_kind(g)]
            t = table(tb)
            if t is None or not is_map(t) or not cons:
                continue
            for k, v in t:
                if isinstance(v, list) and all(isinstance(x, str) for x in v):
                    c.ob("sorted", v == sorted(v) and len(set(v)) == len(v), loc, f"{tb.split('(anon)::')[-1]}:{k}",
                         f"values of {k} are searched by bisection but not sorted: {v}")
            ks = [k for k, _ in t]
            c.ob("sorted", len(ks) == len(set(ks)), loc, f"{tb}:keys", "a tag is listed twice in the table of known values")

    # ---------------------------------------------------------------- how one element is examined
    c.rule("reported", "an issue is pushed exactly under the condition that names the validator: unknown, missing or not convertible", 0)
    c.rule("prefix", "a tag is known if it starts with a known tag, not the other way round", 0)
    c.rule("composed", "the key of values known per type is composed from the value of the type tag", 0)
    MEMBER = ("anyOf", "any_of", "binary_search", "contains", "count", "find", "has", "includes", "none_of", "all_of", "find_if")

    def pair_attr(f, n, depth=0):
        """does the string expression n read the name of an attribute?"""
        n = f.node(n)
        if n is None or depth > 8:
            return False
        for x in wk(f, n):
            if x["k"] == "MemberExpr" and short_of(x.get("m", "")) == "first" and x.get("c"):
                if "lanelet::Attribute" in f.type(x["c"][0]):
                    return True
            if x["k"] == "DeclRefExpr":
                v = (x.get("d") or {}).get("id")
                d = f.vardef(v) if v else None
                if d is not None and f.node(d)["i"] != n["i"] and pair_attr(f, d, depth + 1):
                    return True
        return False

    def attr_value(f, n):
        return any(x["k"] == "MemberExpr" and short_of(x.get("m", "")) == "second" and x.get("c") and
                   "lanelet::Attribute" in f.type(x["c"][0]) for x in wk(f, f.node(n)))

    todo = [g for g, _ in consumers.values()]
    names = {}
    for name, (r, op) in vals.items():
        for s in sites(op, {}, 0, frozenset()):
            names.setdefault(s[4].id, set()).add(name)
    seenc = set()
    for g in todo:
        vn = names.get(g.id, set())
        if len(vn) != 1:
            c.note(f"{g.name} serves {sorted(vn)}: undecided")
            continue
        vn = next(iter(vn))
        fs = [g] + [h for n in g.all("LambdaExpr") for h in P.lambdas(n)]
        pushes = [(f, n) for f in fs for n in f.calls() if short_of(n.get("f", "")) in ("push_back", "emplace_back") and
                  "Issue" in f.type(call_obj(f, n))]
        if not pushes:
            c.note(f"{g.name}: no push of issues recognised, undecided")
        for lp in loops(g):
            body = body_of(g, lp)
            inner = {x["i"] for x in wk(g, body)} if body is not None else set()
            if any(n["i"] in inner for f, n in pushes if f is g):
                for n in early_exits(g, lp):
                    c.ob("reported", False, g.loc(n), f"{g.name}:exit", f"{vn}: the examination of an element stops at the first issue or tag")
        for f, n in pushes:
            st = P.state_at(f, n) or ()
            keys = [x for x in st]
            mem = [x for x in keys if x[0] == "true" and any(re.match(rf"(.*\.)?{m}\(", x[1]) for m in MEMBER) and "is_sorted" not in x[1]]
            ends = [x for x in keys if x[0] == "isend" and not re.fullmatch(r"v:__(begin|end)\d*#[\d:]+", x[1])]
            asb = [x for x in keys if "asBool()" in x[1] and x[0] in ("true", "has")]
            if vn == "mapping.unknown_tags":
                ok = any(not x[2] for x in mem) or any(x[2] for x in ends)
                bad = any(x[2] for x in mem if "any" in x[1])
            elif vn == "mapping.mandatory_tags":
                ok = any(x[2] for x in ends) or any(not x[2] for x in mem)
                bad = any(not x[2] for x in ends)
            elif vn == "mapping.unknown_tag_value":
                ok = any(not x[2] for x in mem) or any(x[2] for x in ends)
                bad = any(x[2] for x in mem)
            else:
                ok = any(not x[2] for x in asb)
                bad = any(x[2] for x in asb) or any(not x[2] for x in mem)
            if not ok and not bad:
                c.note(f"{f.loc(n)}: condition of the issue not recognised, undecided ({vn})")
            else:
                c.ob("reported", ok and not bad, f.loc(n), f"{g.name}:condition",
                     f"{vn}: the issue is reported under the opposite condition: {[x for x in mem + ends + asb]}")
            other = [x for x in keys if x not in mem and x not in ends and x not in asb and
                     x[0] not in ("empty", "def", "minsize") and "is_sorted" not in x[1] and not x[1].startswith("v:__begin") and
                     not re.search(r"\.(end|find)\(", x[1]) and "__begin" not in x[1].split("==")[0] and "anyOf" not in x[1] and "any_of" not in x[1]]
            other = [x for x in other if not re.fullmatch(r"v:\w+#[\d:]+|#\d+", x[1])]
            # conditions on the element or the name other than the table look-up
            extra = [x for x in other if x[0] in ("true", "eq", "cmp", "expired", "has", "case")]
            c.ob("reported", not extra, f.loc(n), f"{g.name}:extra",
                 f"{vn}: an issue is suppressed by an additional condition: {[(x[0], x[1][:80], x[2]) for x in extra]}")
        # prefix order
        for f in fs:
            for n in f.calls():
                a = [x for x in call_args(f, n)]
                cand = None
                tg = P.targets(n)
                if n.get("f", "") == "std::basic_string::compare" and len(a) >= 3:
                    cand = (call_obj(f, n), a[2])
                elif len(tg) == 1 and len(a) == 2 and len(tg[0].params) == 2:
                    h = tg[0]
                    for m in h.calls():
                        b = list(call_args(h, m))
                        if m.get("f") == "std::basic_string::compare" and len(b) >= 3:
                            o, y = root_var(h, call_obj(h, m)), root_var(h, b[2])
                            ids = [p["id"] for p in h.params]
                            if o in ids and y in ids and o != y:
                                cand = (a[ids.index(o)], a[ids.index(y)])
                        if m.get("f") == "std::basic_string::compare" and len(b) >= 3 and const_int(h, b[0]) not in (None, 0):
                            c.ob("prefix", False, h.loc(m), f"{h.name}:pos", "the comparison does not start at the beginning of the tag")
                if cand:
                    x, y = pair_attr(f, cand[0]), pair_attr(f, cand[1])
                    if x != y:
                        c.ob("prefix", x and not y, f.loc(n), f"{g.name}:prefix", "the known tag is tested to start with the attribute instead of the other way round")
        # composed keys
        if vn == "mapping.unknown_tag_value":
            for f in fs:
                for n in f.calls():
                    if short_of(n.get("f", "")) not in ("find", "at", "count") or "std::map" not in n.get("f", ""):
                        continue
                    a = list(call_args(f, n))
                    if not a:
                        continue
                    comp = []
                    rv = root_var(f, a[0])
                    exprs = [f.node(a[0])] + [m for m in f.all("CXXOperatorCallExpr") if m.get("op") in ("=", "+=") and
                                              root_var(f, m["c"][1]) == rv and rv] + [f.node(d) for d in [f.vardef(rv)] if d is not None]
                    for e in exprs:
                        for m in wk(f, e):
                            if m["k"] == "CXXOperatorCallExpr" and m.get("op") == "+" and len(m["c"]) == 3:
                                comp.append(m)
                    for m in comp:
                        c.ob("composed", attr_value(f, m["c"][1]), f.loc(m), f"{g.name}:type-key",
                             "the key of the values known per type is composed from the tag name 'type', not from its value, so it never matches",
                             "composed key")
    # bool tags
    for name, (r, op) in vals.items():
        if name != "mapping.bool_tags":
            continue
        for s in sites(op, {}, 0, frozenset()):
            g = s[4]
            tabs = {(x.get("d") or {}).get("n") for h in [g] + [h for n in g.all("LambdaExpr") for h in P.lambdas(n)] for x in h.all("DeclRefExpr")
                    if (x.get("d") or {}).get("k") == "Global" and ISTAB.search(h.type(x))}
            for tb in sorted(x for x in tabs if x):
                t = table(tb)
                if isinstance(t, list):
                    miss = BOOLS - set(t)
                    c.ob("contents", not miss, g.loc(), f"{tb.split('(anon)::')[-1]}", f"boolean tags {sorted(miss)} are not checked")
            break
