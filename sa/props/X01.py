"""X01: exceptions of third party components and of foreign types do not leave the public interface."""
from ..core import *
from ..throws import NullArgs, Throws, clean

GROUPS = ("core", "io", "projection", "traffic_rules", "routing", "matching", "validation", "wit")
NUM = re.compile(r"^std::(__cxx11::)?sto(i|l|ll|ul|ull|f|d|ld)$")
ASSOC = re.compile(r"^std::(map|unordered_map|multimap|unordered_multimap)::at$")
# by construction the key is present: (file, receiver type, key, why)
REVIEWED = [
    (r"lanelet2_io/src/OsmFile\.cpp", r"Relation", r"\.relation$", "the relation that refers was inserted by the first pass"),
    (r"lanelet2_io/src/OsmHandlerWrite\.cpp", r"Relation", r"\.relationId$", "the relation that refers was inserted when its roles were written"),
    (r"lanelet2_routing/include/lanelet2_routing/internal/ShortestPath\.h", r"", r"", "the search inserts a vertex before it becomes the source of an examined edge"),
    (r"lanelet2_routing/src/RoutingGraph\.cpp", r"VertexState|DijkstraSearchMap", r"", "predecessors of a visited vertex were visited"),
    (r"lanelet2_routing/src/RoutingGraph\.cpp", r"LaneletOrArea|Point", r"", "both ends of an edge are added before the edge"),
    (r"lanelet2_validation/src/ValidatorFactory\.cpp", r"", r"", "the key is taken from the keys of the same table"),
    (r"lanelet2_core/include/lanelet2_core/geometry/impl/LineString\.h", r"", r"", "the table has an entry per index of the segment list"),
]


def variant_ref(f, n):
    a = call_args(f, n)
    if not a or "ariant<" not in f.type(f.node(a[0])):
        return False
    a = f.node(a[0])
    return not (a["k"] == "UnaryOperator" and a.get("op") == "&") and not f.type(a).rstrip().endswith("*")


class Third:
    def __init__(self, P):
        self.P = P
        self.reviewed = {}

    def __call__(self, f, n):
        nm = n.get("f") or ""
        P = self.P
        if ASSOC.match(nm) or nm.endswith("HybridMap::at"):
            return None if self.present(f, n) else "std::out_of_range"
        if NUM.match(nm):
            return ["std::invalid_argument", "std::out_of_range"]
        if nm == "boost::lexical_cast":
            return "boost::bad_lexical_cast"
        if nm in ("boost::get", "boost::strict_get") and variant_ref(f, n):
            return "boost::bad_get"
        if nm in ("std::get",) and variant_ref(f, n):
            return "std::bad_variant_access"
        if re.match(r"^GeographicLib::(UTMUPS|MGRS|GeoCoords|Geoid|DMS|Utility|GARS|Georef|Geohash)::", nm):
            return "GeographicLib::GeographicErr"
        if nm.startswith("boost::archive::") and "exception" not in nm:
            return "boost::archive::archive_exception"
        if re.match(r"^(boost|std)::(experimental::)?filesystem::[a-z_]+$", nm) and nm.rsplit("::", 1)[1] != "path":
            if any("error_code" in f.type(f.node(a)) for a in call_args(f, n)):
                return None
            return "boost::filesystem::filesystem_error"
        if nm in ("boost::optional::value", "std::optional::value"):
            o = call_obj(f, n)
            st = P.state_at(f, n) or ()
            if ("true", P.key(f, o), True) in st:
                return None
            return "boost::bad_optional_access"
        if nm == "std::basic_regex::basic_regex":
            a = call_args(f, n)
            if a and not P.key(f, a[0]).startswith("'") and "basic_regex" not in f.type(f.node(a[0])):
                return "std::regex_error"
        if re.match(r"^std::(list|vector|deque)::(emplace|emplace_back|push_back)$", nm) and "basic_regex" in f.type(call_obj(f, n) or n):
            if any("basic_regex" not in f.type(f.node(a)) and not P.key(f, a).startswith("'") for a in call_args(f, n)):
                return "std::regex_error"
        if nm.endswith("::shared_from_this"):
            return None
        return None

    def present(self, f, n):
        P = self.P
        o = call_obj(f, n)
        a = call_args(f, n)
        if o is None or not a:
            return False
        ok, ak = P.key(f, o), P.key(f, a[0])
        for fact in P.state_at(f, n) or ():
            if fact[0] == "has" and fact[2] and fact[1] == ok + "|" + ak:
                return True
            if fact[0] == "isend" and not fact[2]:
                x = fact[1]
                if x == f"{ok}.find({ak})":
                    return True
                for vid, init in f.vardefs.items():
                    if x.startswith("v:") and init is not None and P.key(f, init) == f"{ok}.find({ak})" and \
                            x == "v:%s" % x[2:] and self.varkey(f, vid) == x:
                        return True
        return self.total(f, o, a[0]) or self.review(f, n, o, a[0])

    def varkey(self, f, vid):
        for n in f.all("DeclRefExpr"):
            if n.get("d", {}).get("id") == vid:
                return self.P.key(f, n)
        return None

    def total(self, f, o, a):
        """is the receiver a table with one entry per enumerator of the key type"""
        P = self.P
        u = unwrap(f, o)
        e = P.enums.get(clean(f.type(unwrap(f, a) or f.node(a)))) if hasattr(P.enums, "get") else None
        if u is None or u["k"] != "DeclRefExpr" or e is None:
            return False
        init = f.vardefs.get(u.get("d", {}).get("id"))
        if init is None:
            return False
        names = {v[0] for v in e["vals"]}
        firsts = set()
        for x in walk(f.node(init)):
            x = f.node(x)
            if x["k"] in ("InitListExpr", "CXXConstructExpr") and len(x.get("c") or ()) == 2:
                k = unwrap(f, x["c"][0])
                if k is not None and k["k"] == "DeclRefExpr":
                    firsts.add(short(P.key(f, k)))
        return bool(names) and names <= {x.rsplit(":", 1)[-1] for x in firsts}

    def review(self, f, n, o, a):
        P = self.P
        t, k = f.type(f.node(o)), P.key(f, a)
        k = re.sub(r"#\d+:\d+", "", k)
        for i, (file, rt, key, why) in enumerate(REVIEWED):
            if re.search(file, f.file) and re.search(rt, t) and re.search(key, k):
                self.reviewed.setdefault(i, set()).add(f.loc(n))
                return True
        return False


def public(f):
    return not (f.flag("dep") or f.kind == "lambda" or "(anon)" in f.name or not f.name.startswith("lanelet::") or "::internal::" in f.name
                or "::detail::" in f.name or "::impl::" in f.name or f.d.get("access") in ("private", "protected") and not f.flag("virt"))


def run(c):
    P = c.program(*GROUPS)
    c.rule("foreign", "an exception that is not derived from lanelet::LaneletError (thrown by the library itself or by a third party operation: "
           "associative look-ups, number parsing, variant access, optional::value, projection, archive, file system, regular expressions) "
           "is caught on every chain of calls up to the public interface", 15)
    third = Third(P)

    def skip(f, n):
        if (n.get("f") or "").endswith("HybridMap::at"):
            return True
        return na.skip(f, n)

    na = NullArgs(P)
    lib = {}

    def label(f, n, t):
        if t.startswith("lanelet::"):
            return t
        return t + "@" + f.file.replace("/repo/", "") + ":" + str(n.get("l")) + ":" + str(n["i"])
    T = Throws(P, third, skip, label)
    # look-ups in HybridMap are library functions that mimic std::map::at: handled like the standard one at the place of use
    best, origins = {}, {}
    for f in P.lib():
        if f.flag("dep") or f.kind == "conv":
            continue
        for n, ts, cs in T.own(f):
            for t in ts:
                if not T.isa(t, "lanelet::LaneletError"):
                    origins.setdefault(t, (f, n))
        if not public(f):
            continue
        if f.short == "at" and "Map" in (f.cls or ""):
            continue
        for t, p in T.esc.get(f.id, {}).items():
            if T.isa(t, "lanelet::LaneletError"):
                continue
            b = best.get(t)
            if b is None or len(b[1]) > len(p):
                best[t] = (f, p)
    seen = set()
    for t, (f, n) in sorted(origins.items(), key=lambda x: x[1][0].loc(x[1][1])):
        e = best.get(t)
        ty = t.split("@")[0]
        key = f"{f.name}|{short(ty)}|{re.sub('#[0-9:]+', '', P.key(f, n))[:80]}"
        if (key, e is None) in seen:
            continue
        seen.add((key, e is None))
        c.ob("foreign", e is None, f.loc(n), key, (f"{ty} can leave {e[0].name}: {T.path(e[1])}" if e else ""), key)
    c.analysed["reviewed_lookups"] = {f"{REVIEWED[i][0]}: {REVIEWED[i][3]}": sorted(v) for i, v in third.reviewed.items()}
    c.note("look-ups with a key that is present by construction: " + "; ".join(f"{r[0]} ({r[3]})" for r in REVIEWED))
    c.note("conversion operators of LaneletOrArea are documented as unchecked; checked index access to vectors (vector::at) with computed "
           "indices, allocation failures and exceptions of boost::geometry for degenerate geometry are not decided")
