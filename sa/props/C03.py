"""C03: every element of a map has a valid, registered id; the generator never repeats itself."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from ..feeds import Feeds, last
from .V02 import wk

INV = "lanelet::InvalId"
RMW_ADD = {"operator++", "fetch_add", "operator+="}
CAS = {"compare_exchange_weak", "compare_exchange_strong"}
READ = {"load", "is_lock_free"}


def bare(t):
    return re.sub(r"\b(const|class|struct)\b|&|\*", "", t or "").strip()


def strip(k):
    return re.sub(r"^[*&]+", "", k or "")


def run(c):
    P = c.program("core", "io")
    lib = [f for f in P.lib() if not f.flag("dep")]

    def layer_member(f):
        return (f.cls or "").startswith("lanelet::PrimitiveLayer")

    def is_layer_add(n):
        return n.get("f") == "lanelet::PrimitiveLayer::add"

    def is_gen(f, n, d=0):
        """a value fresh from the id generator"""
        n = unwrap(f, n)
        if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") in ("Var", "Parm") and d < 6:
            i = f.vardef(n["d"]["id"])
            if isinstance(i, dict):
                return is_gen(f, i, d + 1)
            for j, p in enumerate(f.params):
                if p["id"] == n["d"]["id"]:
                    cs = [(g, m) for g, m in P.callers().get(f.id, ()) if m["k"] in CALLS]
                    return bool(cs) and all(len(call_args(g, m)) > j and is_gen(g, call_args(g, m)[j], d + 1) for g, m in cs)
            return False
        if n["k"] == "ConditionalOperator":
            return is_gen(f, n["c"][1], d + 1) and is_gen(f, n["c"][2], d + 1)
        if n["k"] not in CALLS:
            return False
        if n.get("f") == "lanelet::utils::getId":
            return True
        for g in P.targets(n):
            rs = [x["c"][0] for x in g.all("ReturnStmt") if x.get("c")]
            return bool(rs) and all(is_gen(g, x, d + 1) for x in rs) if d < 6 else False
        return False

    def idkey(f, K):
        return re.compile(r"^(.*[^\w:#])?[*]*" + re.escape(K) + r"\.id\(\)")

    def fact(f, n, K):
        """True/False if the id of K is known to be (in)valid at n, else None"""
        for x in P.state_at(f, n) or ():
            if x[0] == "eq" and INV in x[1] and len(x) > 2:
                for side in x[1].split("=="):
                    if strip(side) == K + ".id()":
                        return x[2]
        return None

    def events(g, K, seen=()):
        """nodes of g after which the object with key K has a registered id"""
        out = set()
        for n in g.calls():
            nm, o, a = last(n.get("f", "")), call_obj(g, n), call_args(g, n)
            if nm == "setId" and o is not None and strip(P.key(g, o)) == K:
                out.add(n["i"])
            elif n.get("f") == "lanelet::utils::registerId" and a and strip(P.key(g, a[0])) == K + ".id()":
                out.add(n["i"])
            else:
                for j, x in enumerate(a):
                    if strip(P.key(g, x)) == K:
                        for h in P.targets(n):
                            if j < len(h.params) and h.id not in seen and not n.get("fvirt") and ensures(h, j, seen + (g.id,)):
                                out.add(n["i"])
        return out

    memo = {}

    def ensures(h, j, seen=()):
        if (h.id, j) in memo:
            return memo[(h.id, j)]
        if not h.cfg or layer_member(h):
            return False
        t = h.ptype(h.params[j])
        if "&" not in t and "*" not in t and "shared_ptr" not in t and not re.search(r"lanelet::(Lanelet|Area|LineString3d|Polygon3d|Point3d)$", bare(t)):
            return False
        K = "v:" + h.params[j]["id"]
        ev = events(h, K, seen)
        r = bool(ev) and escape(P, h, None, lambda n: n["i"] in ev, in_already(K)) is None
        memo[(h.id, j)] = r
        return r

    def in_already(K):
        """a path on which the element is known to be in a layer already"""
        return lambda facts: any(x[0] == "true" and x[2] and ".exists(" in x[1] and K + ".id()" in x[1] for x in facts)

    # ------------------------------------------------------------ (a) additions
    c.rule("registered-before-add", "on every path to the point where an element is entered into a layer it has been given a fresh id or its id has "
           "been announced to the generator", 10)
    n_add = 0
    for f in lib:
        if layer_member(f) or f.cls in ("lanelet::AreaLayer", "lanelet::LaneletLayer"):
            continue
        for n in f.calls():
            if not is_layer_add(n) and not (last(n.get("f", "")) == "add" and (n.get("f") or "").startswith(("lanelet::AreaLayer", "lanelet::LaneletLayer"))):
                continue
            n_add += 1
            a = call_args(f, n)
            K = strip(P.key(f, a[0]))
            ev = events(f, K)
            # is there a path from the entry to the addition without such an event?
            bad = reaches(P, f, n, lambda m: m["i"] in ev)
            c.ob("registered-before-add", not bad, f.loc(n), "%s(%s)" % (f.name, bare(f.type(a[0]))),
                 "%s enters %s into a layer on a path on which it neither got a fresh id nor had its id announced to the id generator"
                 % (f.name, K.split("#")[0].replace("v:", "")), {"function": f.name, "type": bare(f.type(a[0]))})
    if n_add == 0:
        raise AnalysisBroken("no addition to a layer found")

    # ------------------------------------------------------------ (b) setId
    c.rule("fresh-id-only-when-invalid", "the map replaces an id only where it is known to be invalid, and by one from the generator", 8)
    Fd = Feeds(P)
    roots = [f for f in lib if f.cls in ("lanelet::LaneletMap", "lanelet::LaneletSubmap", "lanelet::LaneletMapLayers")]
    inmap = P.reach(roots)
    inmap = {x.id if isinstance(x, Func) else x for x in inmap}
    files = {f.loc().split(":")[0] for f in roots}
    for f in lib:
        if f.loc().split(":")[0] not in files:
            continue
        for n in f.calls():
            if last(n.get("f", "")) != "setId":
                continue
            o, a = call_obj(f, n), call_args(f, n)
            if o is None or not a:
                continue
            K = strip(P.key(f, o))
            c.ob("fresh-id-only-when-invalid", is_gen(f, a[0]), f.loc(n), f.name + ".value:" + K,
                 "%s sets an id that does not come from the id generator" % f.name, {"function": f.name, "object": K})
            ok = known_invalid(P, f, n, K, fact)
            c.ob("fresh-id-only-when-invalid", ok, f.loc(n), f.name + ".cond:" + K,
                 "%s replaces the id of an element that may have a valid one already" % f.name, {"function": f.name, "object": K})

    # ------------------------------------------------------------ (d) the generator
    c.rule("generator-atomic", "the id counter is changed by atomic steps only: it is incremented, or raised by compare-and-exchange from a smaller "
           "value; it is never stored to", 2)
    get = [f for f in lib if f.name == "lanelet::utils::getId"]
    reg = [f for f in lib if f.name == "lanelet::utils::registerId"]
    if not get or not reg:
        raise AnalysisBroken("getId/registerId not found")

    def globals_of(f):
        return {n["d"]["n"] for n in f.all("DeclRefExpr") if n.get("d", {}).get("k") == "Global"}
    G = set()
    for f in get:
        for g in [f] + [h for n in f.calls() for h in P.targets(n)]:
            G |= {x for x in globals_of(g) if INV not in x and "npos" not in x}
    G = {x for x in G if any(x in globals_of(r) or any(x in globals_of(h) for n in r.calls() for h in P.targets(n)) for r in reg)} or G
    if not G:
        raise AnalysisBroken("the id counter was not found")
    rmw = {}
    for f in P.funcs.values():
        if f.flag("dep"):
            continue
        for n in f.nodes.values():
            if n["k"] != "DeclRefExpr" or n.get("d", {}).get("n") not in G:
                continue
            p = f.parent(n)
            while p is not None and p["k"] in ("MemberExpr", "CXXStaticCastExpr", "ParenExpr"):
                p = f.parent(p)
            atomic = "atomic" in f.type(n)
            locked = any("lock_guard" in f.type(v) or "unique_lock" in f.type(v) or "scoped_lock" in f.type(v)
                         for m in f.all("DeclStmt") for v in m.get("vars", ()) if "t" in v)
            nm = last((p or {}).get("f", "")) if p is not None else ""
            where, key = f.loc(n), f.name + ":" + (nm or (p or {}).get("k", "?"))
            if not atomic and not locked:
                c.ob("generator-atomic", False, where, key, "the id counter is neither atomic nor protected by a lock in %s" % f.name)
                continue
            if p is None or p["k"] not in CALLS:
                if locked and p is not None and (p.get("op") in ("++", "+=") or p["k"] not in ("BinaryOperator", "CompoundAssignOperator")):
                    c.ob("generator-atomic", True, where, key, "", {"function": f.name, "operation": p.get("op")})
                    rmw.setdefault(f.id, []).append(p)
                else:
                    c.note("%s: use of the id counter not classified at %s" % (f.name, where))
                continue
            if nm in READ or nm.startswith("operator ") or nm == "operator __int_type":
                c.ob("generator-atomic", True, where, key, "", {"function": f.name, "operation": "read"})
            elif nm in RMW_ADD:
                a = [x for x in call_args(f, p) if f.node(x)["k"] != "CXXDefaultArgExpr"]
                v = const_int(f, a[0]) if a and nm != "operator++" else 1
                c.ob("generator-atomic", v is None or v > 0, where, key, "the id counter is changed by %s in %s" % (v, f.name),
                     {"function": f.name, "operation": nm, "by": v})
                rmw.setdefault(f.id, []).append(p)
            elif nm in CAS:
                a = call_args(f, p)
                e, d = strip(P.key(f, a[0])), strip(P.key(f, a[1]))
                st = P.state_at(f, p) or ()
                up = any(x[0] == "cmp" and x[2] and (x[1] in (e + "<" + d, d + ">" + e)) for x in st) or grows(P, f, a[0], a[1])
                c.ob("generator-atomic", up, where, key, "%s may lower the id counter: the new value is not known to be larger than the one it replaces"
                     % f.name, {"function": f.name, "operation": nm})
                rmw.setdefault(f.id, []).append(p)
            elif nm in ("store", "operator=", "exchange", "operator--", "fetch_sub", "operator-="):
                c.ob("generator-atomic", False, where, key, "%s overwrites the id counter (%s): concurrent calls can get an id twice or lower it" % (f.name, nm))
            else:
                c.note("%s: call %s on the id counter not classified" % (f.name, nm))

    c.rule("generator-result", "getId returns the value its own atomic increment yielded", 1)
    for f in get:
        for n in f.all("ReturnStmt"):
            ok, why = from_rmw(P, f, n["c"][0], rmw, G)
            if ok is None:
                c.note("getId: return value at %s not classified: %s" % (f.loc(n), why))
            else:
                c.ob("generator-result", ok, f.loc(n), f.name + ".return", "getId returns a value that is not the result of its atomic increment (%s)" % why,
                     {"function": f.name})

    c.rule("registration-effective", "registering an id ends only when the counter is beyond that id", 2)
    for f in reg:
        check_reg(c, P, f, G, rmw)

    # ------------------------------------------------------------ (e)(f) layers filled at once
    c.rule("registered-at-construction", "a layer built from a list of elements announces the id of each of them to the generator", 3)
    c.rule("layer-fill", "elements enter the id index of a layer only in its add function and its constructors", 3)
    for f in lib:
        for n in f.nodes.values():
            if n["k"] == "MemberExpr" and last(n.get("m", "")) == "elements_" and (n.get("m") or "").startswith("lanelet::PrimitiveLayer"):
                p = f.parent(n)
                while p is not None and p["k"] == "MemberExpr":
                    p = f.parent(p)
                if p is not None and p["k"] in CALLS and (last(p.get("f", "")) in ("insert", "emplace", "insert_or_assign", "try_emplace", "operator[]", "merge", "extract",
                                                                                   "erase", "clear", "swap", "operator=")):
                    ok = f.kind == "ctor" or last(p["f"]) in ("erase", "clear", "extract") or \
                        ((f.short == "add" or helper_of_add(P, f)) and layer_member(f)) or f.short in ("operator=", "swap")
                    c.ob("layer-fill", ok, f.loc(n), f.name + ":" + last(p["f"]), "%s enters an element into a layer's id index outside the layer's add function"
                         % f.name, {"function": f.name, "operation": last(p["f"])})
        if f.kind == "ctor" and f.cls == "lanelet::PrimitiveLayer" and f.params and "&&" not in f.ptype(f.params[0]) and f.cfg and \
                "map" in f.ptype(f.params[0]).lower():
            Fd.prune = None
            fs = Fd.feeds(f, lambda g, n: n.get("f") == "lanelet::utils::registerId")
            good = [x for x in fs if any(re.match(r"P0\[\](\.second)?\.(first|id)$", t) for t in Fd.args(x)) and not Fd.skips(x)]
            why = "; ".join(s[2] for x in fs for s in Fd.skips(x)) or "no such call"
            c.ob("registered-at-construction", bool(good), f.loc(), "%s(%s)" % (f.name, f.ptype(f.params[0])[:80]),
                 "%s takes over a list of elements without announcing each id to the generator (%s)" % (f.name, why), {"constructor": f.ptype(f.params[0])[:100]})

    # ------------------------------------------------------------ (g) loaded files
    c.rule("registered-at-load", "the parsers announce the ids of a file, or the saved state of the generator, before they create elements", 2)
    for f in lib:
        if f.short == "parse" and f.cls in ("lanelet::io_handlers::OsmParser", "lanelet::io_handlers::BinParser"):
            fs = Fd.feeds(f, lambda g, n: n.get("f") == "lanelet::utils::registerId")
            if f.cls.endswith("OsmParser"):
                got = set()
                for x in fs:
                    for t in Fd.args(x):
                        m = re.search(r"\.(nodes|ways|relations)\b", t)
                        if m and not Fd.skips(x, lambda facts: any(y[0] == "empty" and y[2] for y in facts)):
                            got.add(m.group(1))
                for k in ("nodes", "ways", "relations"):
                    c.ob("registered-at-load", k in got, f.loc(), f.name + "." + k, "%s does not announce the ids of the %s of a file to the id generator: "
                         "a fresh id may collide with one of the file" % (f.name, k), {"parser": f.cls, "ids": k})
            else:
                ok = any(not Fd.skips(x) for x in fs)
                c.ob("registered-at-load", ok, f.loc(), f.name, "%s does not announce the id counter saved in the file" % f.name, {"parser": f.cls})


def helper_of_add(P, f):
    cs = [(g, n) for g, n in P.callers().get(f.id, ()) if n["k"] in CALLS]
    return bool(cs) and all(g.short == "add" and g.cls == f.cls or g.kind == "ctor" for g, n in cs)


def reaches(P, f, n, stop):
    """path from the entry to n on which no element satisfies stop"""
    w = P.where(f, n)
    if w is None:
        return False
    B = f.cfg["blocks"]
    seen, st = set(), [f.cfg["entry"]]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        cut = False
        for i, e in enumerate(B[b]["e"]):
            if b == w[0] and i == w[1]:
                return True
            if isinstance(e, int):
                m = f.nodes.get(e)
                if m is not None and stop(m):
                    cut = True
                    break
        if cut or throws(f, B[b]):
            continue
        st += [s for s in B[b]["s"] if s is not None]
    return False


def known_invalid(P, f, n, K, fact, d=0):
    if fact(f, n, K) is True:
        return True
    # an object created right here
    v = K[2:] if K.startswith("v:") else None
    j = next((i for i, p in enumerate(f.params) if p["id"] == v), None)
    if j is None or d > 3:
        return False
    cs = [(g, m) for g, m in P.callers().get(f.id, ()) if m["k"] in CALLS]
    return bool(cs) and all(len(call_args(g, m)) > j and known_invalid(P, g, m, strip(P.key(g, call_args(g, m)[j])), fact, d + 1) for g, m in cs)


def grows(P, f, e, d):
    """desired = max(expected, ...) or expected + positive"""
    ek = strip(P.key(f, e))
    n = unwrap(f, d)
    if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") == "Var":
        i = f.vardef(n["d"]["id"])
        if isinstance(i, dict):
            n = unwrap(f, i)
    if n["k"] in CALLS and last(n.get("f", "")) == "max":
        return any(strip(P.key(f, x)) == ek for x in call_args(f, n))
    if n["k"] == "BinaryOperator" and n.get("op") == "+":
        return any(strip(P.key(f, n["c"][i])) == ek and (const_int(f, f.node(n["c"][1 - i])) or 0) > 0 for i in (0, 1))
    return False


def from_rmw(P, f, n, rmw, G, d=0):
    n = unwrap(f, n)
    if any(n is x or n["i"] == x["i"] for x in rmw.get(f.id, ())):
        return True, ""
    if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") == "Var" and d < 5:
        i = f.vardef(n["d"]["id"])
        # compare-and-exchange loop: the expected value is what was replaced
        for x in rmw.get(f.id, ()):
            if last(x.get("f", "")) in CAS and any(root_var(f, a) == n["d"]["id"] for a in call_args(f, x)[:2]):
                return True, ""
        if isinstance(i, dict):
            return from_rmw(P, f, i, rmw, G, d + 1)
        return None, "variable"
    if n["k"] == "BinaryOperator" and n.get("op") in ("+", "-") and d < 5:
        return from_rmw(P, f, n["c"][0], rmw, G, d + 1)
    if n["k"] in CALLS:
        nm = last(n.get("f", ""))
        if nm == "load" or nm.startswith("operator ") or nm == "operator __int_type":
            return False, "it is read separately"
        for g in P.targets(n):
            rs = [x["c"][0] for x in g.all("ReturnStmt") if x.get("c")]
            if rs and d < 5:
                r = [from_rmw(P, g, x, rmw, G, d + 1) for x in rs]
                return all(x[0] for x in r), "; ".join(x[1] for x in r)
    if n["k"] == "DeclRefExpr" and n.get("d", {}).get("n") in G:
        return False, "it is read separately"
    return None, n["k"]


def check_reg(c, P, f, G, rmw):
    ops = rmw.get(f.id, ())
    if not ops:
        for n in f.calls():
            for g in P.targets(n):
                if rmw.get(g.id):
                    return check_reg(c, P, g, G, rmw)
        c.ob("registration-effective", False, f.loc(), f.name, "registering an id does not raise the id counter")
        return
    if not f.params:
        return
    pk = "v:" + f.params[0]["id"]
    cas = [n for n in ops if last(n.get("f", "")) in CAS]
    for n in cas:
        d = unwrap(f, call_args(f, n)[1])
        if d["k"] == "DeclRefExpr" and d.get("d", {}).get("k") == "Var":
            i = f.vardef(d["d"]["id"])
            d = unwrap(f, i) if isinstance(i, dict) else d
        ok = d["k"] == "BinaryOperator" and d.get("op") == "+" and any(
            strip(P.key(f, d["c"][i])) == pk and (const_int(f, f.node(d["c"][1 - i])) or 0) >= 1 for i in (0, 1))
        if not ok and d["k"] in CALLS and last(d.get("f", "")) == "max":
            ok = True
        c.ob("registration-effective", ok, f.loc(n), f.name + ".value", "registerId does not raise the counter beyond the registered id", {"new value": P.key(f, d)})
    # every way out: the exchange succeeded or the counter was found to be beyond the id
    ids = {n["i"] for n in cas}
    keys = {P.key(f, n) for n in cas}
    want = set()
    for n in cas:
        e, d = strip(P.key(f, call_args(f, n)[0])), strip(P.key(f, call_args(f, n)[1]))
        want |= {e + ">=" + d, d + "<=" + e, e + ">" + pk, pk + "<" + e}

    def done(facts):
        return any((x[0] == "true" and x[2] and x[1] in keys) or (x[0] == "cmp" and x[2] and x[1] in want) for x in facts)
    if cas:
        p = escape(P, f, None, lambda n: False, done)
        c.ob("registration-effective", p is None, f.loc(), f.name + ".exit", "registerId can return although the counter was not raised beyond the id "
             "(a failed exchange is not repeated)", {"function": f.name})
