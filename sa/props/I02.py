"""I02: the map file reader looks for what the writer writes, at the same place, and carries it to the same kind of element."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from ..feeds import Feeds, last, GROW
from .I03 import strval
from .V02 import wk

KINDS = {"Node": "nodes", "Way": "ways", "Relation": "relations"}


def loc(f, n=None):
    return f.loc(n) if n is not None else f.loc()


def rule(c, rid, text, minimum):
    c.rule(rid, text, minimum)
    return rid


class X(Feeds):
    """terms in which XML nodes and attributes are places: root/osm/node/@id"""

    def val(self, f, n, env):
        r = set()
        for t in self.term(f, n, env):
            if t.startswith("g:"):
                t = strval(self.P, t[2:]) or t
            r.add(t)
        return r

    def term(self, f, n, env, d=0):
        if n is None or d > 90:
            return {"?"}
        m = unwrap(f, n)
        if m["k"] == "StringLiteral":
            return {m.get("v", "?")}
        if m["k"] in CALLS:
            q = m.get("f", "")
            nm, o, a = last(q), call_obj(f, m), call_args(f, m)
            if q.startswith("pugi::") and o is not None:
                ot = self.term(f, o, env, d + 1)
                v = lambda i: "|".join(sorted(self.val(f, a[i], env)))
                if nm in ("append_child", "prepend_child", "child", "children", "insert_child_after", "insert_child_before"):
                    return {x + "/" + (v(0) if a else "*") for x in ot}
                if nm in ("append_attribute", "prepend_attribute", "attribute", "insert_attribute_after", "insert_attribute_before"):
                    return {x + "/@" + v(0) for x in ot}
                if nm in ("next_sibling", "previous_sibling"):
                    return {x.rsplit("/", 1)[0] + "/" + (v(0) if a else "*") for x in ot}
                if nm == "find_child_by_attribute":
                    b = [v(i) for i in range(len(a))]
                    return {x + "/%s[%s=%s]" % tuple(b) if len(b) == 3 else x + "/*[%s=%s]" % tuple(b[:2]) for x in ot}
                if nm.startswith("as_") or nm in ("value", "operator=", "set_value", "set_name", "get", "child_value", "begin", "end"):
                    return ot
            if nm in ("c_str", "str") and o is not None:
                return self.term(f, o, env, d + 1)
            g = next(iter(self.P.targets(m)), None)
            if g is not None and g.params and a and "string" in f.type(m) and re.search(r"\b(double|float)\b", g.type(g.params[0])):
                return self.term(f, a[0], env, d + 1)
        return {re.sub(r"(/[\w*]+)\[\]", r"\1", x) if "/" in x else x for x in super().term(f, n, env, d)}

    def elems(self, f, n, env, d=0):
        return {re.sub(r"(/[\w*]+)\[\]", r"\1", x) if "/" in x else x for x in super().elems(f, n, env, d)}


def inregion(f, edges, target, start=None):
    """target is only reached through one of the edges"""
    B = f.cfg["blocks"]
    s0 = f.cfg["entry"] if start is None else start
    seen, st = {s0}, [s0]
    while st:
        b = st.pop()
        if target in B[b]["e"]:
            return False
        for si, s in enumerate(B[b]["s"]):
            if s is None or s in seen or (b, si) in edges:
                continue
            seen.add(s)
            st.append(s)
    return True


class Run:
    def __init__(self, c):
        self.c = c
        self.P = P = c.program("core", "io")
        from .I01 import Wire
        self.wire = Wire(c, P)
        self.F = X(P, inline=lambda g: g.loc().startswith("lanelet2_io/") and not g.flag("dep") or g.name.startswith("lanelet::utils::"))

    def one(self, rx, pred=lambda f: True):
        fs = [f for f in self.P.lib() if re.search(rx, f.name) and f.cfg and not f.flag("dep") and pred(f)]
        if not fs:
            raise AnalysisBroken("no function matches %s" % rx)
        return fs

    def eqs(self, f, n):
        """[(values of one side, other side's text, holds)] of equalities known at n"""
        out = []
        for x in self.P.state_at(f, n) or ():
            if x[0] == "eq" and "==" in x[1]:
                a, b = x[1].split("==", 1)
                for s, o in ((a, b), (b, a)):
                    for g in re.findall(r"g:((?:\(anon\)|[\w:])+)", s):
                        v = strval(self.P, g)
                        if v is not None:
                            out.append((v, o, x[2], s))
                    for v in re.findall(r'"([^"]*)"', s):
                        out.append((v, o, x[2], s))
        return out

    # ------------------------------------------------------------ the XML level
    def xml(self):
        c, P, F = self.c, self.P, self.F
        write = [f for f in P.lib() if f.name == "lanelet::osm::write" and f.cfg]
        read = [f for f in P.lib() if f.name == "lanelet::osm::read" and f.cfg]
        if not write or not read:
            raise AnalysisBroken("osm::write or osm::read is gone")
        norm = lambda t: re.sub(r"^.*?/osm(?=/|$)", "/osm", t)
        W, R = {}, {}
        isset = lambda h, n: n["k"] in CALLS and re.match(r"pugi::xml_attribute::(operator=|set_value)", n.get("f") or "") is not None
        wx = []
        for x in F.feeds(write[0], isset):
            f, n = x["f"], x["call"]
            o = call_obj(f, n)
            o = f.node(n["c"][1]) if o is None else o
            v = f.node(n["c"][2]) if n.get("op") else x["argn"][0]
            place, vals = {norm(t) for t in F.term(f, o, x["env"])}, F.val(f, v, x["env"])
            wx.append((x, place, vals))
            for p in place:
                W.setdefault(p, []).append((x, vals))
        isread = lambda h, n: n["k"] in CALLS and re.match(r"pugi::xml_node::attribute$", n.get("f") or "") is not None
        for x in F.feeds(read[0], isread):
            for p in F.term(x["f"], x["call"], x["env"]):
                R.setdefault(norm(p), []).append(x)
        # also attributes read after the root has been looked up otherwise
        c.analysed["xml_places"] = "written %d, read %d" % (len(W), len(R))
        r1 = rule(c, "I02.place", "every XML attribute that carries data is written and read at the same place: same element path, same attribute name", 12)
        data = lambda vals: any(re.match(r"(P\d|this|v:)", v) for v in vals)
        readtags = set(R)
        for p in sorted(W):
            for x, vals in W[p]:
                f, n = x["f"], x["call"]
                if data(vals):
                    c.ob(r1, p in R, loc(f, n), "%s:written" % p, "%s is written at %s, where nothing is read" % ("|".join(sorted(vals)), p))
                elif p.endswith("/@k") and any(v not in ("?",) for v in vals):
                    v = sorted(vals)[0]
                    q = "%s[k=%s]" % (p[:-3], v)
                    c.ob(r1, any(y.startswith(q) for y in R), loc(f, n), "%s:key %s" % (p, v), "the tag %s is written but no tag with that key is looked up at %s" % (v, p[:-3]))
        wkeys = {"%s[k=%s]" % (p[:-3], v) for p in W if p.endswith("/@k") for x, vals in W[p] for v in vals}
        for p in sorted(R):
            x = R[p][0]
            if p.endswith("/@action") or p.endswith("/@*"):
                continue
            m = re.match(r"(.*\[\w+=[^\]]*\])/@(\w+)$", p)
            if m:
                ok = m.group(1) in wkeys
            else:
                ok = any(data(v) for _, v in W.get(p, ()))
            c.ob(r1, ok, loc(x["f"], x["call"]), "%s:read" % p, "%s is looked up but the writer puts no data there" % p)
        # iterating the siblings of the kind
        r2 = rule(c, "I02.sibling", "a loop over elements continues with elements of the name it started with", 5)
        for x in F.feeds(read[0], lambda h, n: n["k"] in CALLS and (n.get("f") or "").startswith("pugi::xml_node::") and last(n["f"]) in ("next_sibling", "previous_sibling")):
            f, n = x["f"], x["call"]
            a = {norm(t) for t in F.term(f, call_obj(f, n), x["env"])}
            b = {norm(t) for t in F.term(f, n, x["env"])}
            c.ob(r2, a == b and last(n["f"]) == "next_sibling" and bool(call_args(f, n)), loc(f, n), "%s:%s" % (f.name, "|".join(sorted(a))),
                 "the loop over %s goes on with %s" % ("|".join(sorted(a)), "|".join(sorted(b))))
        self.fields(read[0], wx, norm)
        self.always(wx, R, norm)
        self.members(read[0], norm)

    def ctorfields(self, g, seen=()):
        """parameter index -> field of the object a constructor initialises from it"""
        out = {}
        ids = {p["id"]: i for i, p in enumerate(g.params)}
        for i in g.d.get("inits", ()) or ():
            e = i.get("e")
            if e is None:
                continue
            n = unwrap(g, g.node(e) if not isinstance(e, dict) else e)
            used = [ids[y["d"]["id"]] for y in wk(g, n) if y["k"] == "DeclRefExpr" and y.get("d", {}).get("id") in ids]
            if i.get("m"):
                for u in used:
                    out[u] = last(i["m"])
            else:
                for h in self.P.targets(n) if n["k"] in CALLS else ():
                    if h.id in seen:
                        continue
                    sub = self.ctorfields(h, seen + (g.id,))
                    for j, a in enumerate(call_args(g, n)):
                        for y in wk(g, a):
                            if y["k"] == "DeclRefExpr" and y.get("d", {}).get("id") in ids and j in sub:
                                out[ids[y["d"]["id"]]] = sub[j]
        return out

    def fields(self, read, wx, norm):
        """value of a place: the same field of the same kind of element"""
        c, P, F = self.c, self.P, self.F
        r = rule(c, "I02.field", "what is read at a place goes into the field the writer took it from, of the same kind of element", 12)
        dest = {}      # place -> set of (kind, field path)
        for x in F.feeds(read, lambda h, n: n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and
                         re.match(r"lanelet::osm::(Node|Way|Relation)::\w+$", n.get("f", "")) is not None and len([a for a in n.get("c", ()) if a is not None]) > 1):
            f, n = x["f"], x["call"]
            kind = KINDS[last(n["f"])]
            for g in P.targets(n):
                m = self.ctorfields(g)
                for i, a in enumerate(x["argn"]):
                    if i not in m:
                        continue
                    self.spread(f, a, x["env"], kind, m[i], dest, norm)
        # attributes: map[k] = v  (or emplace / insert)
        for x in F.feeds(read, lambda h, n: n["k"] in CALLS and (n.get("op") == "=" or last(n.get("f", "")) in ("emplace", "insert", "insert_or_assign", "try_emplace"))):
            f, n = x["f"], x["call"]
            if n.get("op") == "=":
                l = unwrap(f, n["c"][1])
                if l["k"] not in CALLS or l.get("op") != "[]":
                    continue
                kk, vv = f.node(l["c"][2]), f.node(n["c"][2])
            else:
                if len(x["argn"]) < 2:
                    continue
                kk, vv = x["argn"][0], x["argn"][1]
            for nd, fld in ((kk, "first"), (vv, "second")):
                for t in F.term(f, nd, x["env"]):
                    t = norm(t)
                    if re.match(r"/osm/\w+/\w+/@\w+$", t):
                        dest.setdefault(t, set()).add(("attributes", fld))
        for x, place, vals in wx:
            f, n = x["f"], x["call"]
            for v in vals:
                m = re.match(r"P0\.(\w+)\[\]\.second\.(.+)$", v)
                if not m:
                    continue
                kind, fld = m.group(1), m.group(2)
                for p in place:
                    if fld.startswith("attributes[]"):
                        want = ("attributes", fld.rsplit(".", 1)[-1])
                        got = dest.get(p, set())
                        c.ob(r, got == {want}, loc(f, n), "%s:%s" % (p, fld), "the writer puts %s at %s; the reader uses what it finds there as %s" % (
                            v, p, ", ".join(sorted("%s.%s" % y for y in got)) or "nothing"))
                    elif fld in ("id", "point.lat", "point.lon", "point.ele") or re.match(r"point\.\w+$", fld):
                        q = p
                        if p.endswith("/@v") and fld.startswith("point."):
                            ks = [w for y, pl, vs in wx for w in vs if y["f"] is f and any(z == p[:-2] + "@k" for z in pl) and not w.startswith("P0")]
                            q = "%s[k=%s]/@v" % (p[:-3], ks[0]) if ks else p
                        got = dest.get(q, set())
                        c.ob(r, (kind, fld) in got and all(y == (kind, fld) for y in got), loc(f, n), "%s:%s" % (q, fld), "the writer puts %s at %s; the reader puts what it finds there into %s" % (
                            v, q, ", ".join(sorted("%s.%s" % y for y in got)) or "nothing"))
        self.dest = dest
        # the key under which an element is stored is its id
        r3 = rule(c, "I02.key", "an element read from the file is stored under the id it was read with, in the container of its kind", 3)
        seen = set()
        for x in F.feeds(read, lambda h, n: n["k"] in CALLS and (n.get("op") == "=" or last(n.get("f", "")) in ("emplace", "insert", "insert_or_assign", "try_emplace"))):
            f, n = x["f"], x["call"]
            if n.get("op") == "=":
                l = unwrap(f, n["c"][1])
                if l["k"] not in CALLS or l.get("op") != "[]":
                    continue
                kk, cont = f.node(l["c"][2]), f.node(l["c"][1])
            else:
                if len(x["argn"]) < 2 or call_obj(f, n) is None:
                    continue
                kk, cont = x["argn"][0], call_obj(f, n)
            m = re.search(r"map<long, lanelet::osm::(Node|Way|Relation)>", f.type(unwrap(f, cont)))
            if not m:
                continue
            ts = {norm(t) for t in F.term(f, kk, x["env"])}
            c.ob(r3, ts == {"/osm/%s/@id" % m.group(1).lower()}, loc(f, n), "%s:%s" % (f.name, m.group(1)), "a %s is stored under %s" % (m.group(1).lower(), "|".join(sorted(ts))))

    def spread(self, f, a, env, kind, field, dest, norm):
        """argument of a primitive's constructor: which places go to which (sub)field"""
        F, P = self.F, self.P
        n = unwrap(f, a)
        for _ in range(8):
            if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") == "Var":
                i = next((h.vardef(n["d"]["id"]) for h in F.owners(f) if isinstance(h.vardef(n["d"]["id"]), dict)), None)
                if i is None or not [z for z in i.get("c", ()) if z is not None] and i["k"] in ("CXXConstructExpr", "InitListExpr"):
                    break
                n = unwrap(f, i)
            elif n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len([z for z in n.get("c", ()) if z is not None]) == 1 and "GPSPoint" not in f.type(n):
                n = unwrap(f, n["c"][0])
            else:
                break
        rec = P.recbyname.get(re.sub(r"^const ", "", f.type(n)))
        rec = rec[0] if isinstance(rec, list) else rec
        if n["k"] == "InitListExpr" and rec and rec.get("fields"):
            for fl, x in zip(rec["fields"], n.get("c", ())):
                if x is not None:
                    for t in F.term(f, x, env):
                        dest.setdefault(norm(t), set()).add((kind, "%s.%s" % (field, last(fl["n"]))))
            return
        for t in F.term(f, n, env):
            dest.setdefault(norm(t), set()).add((kind, field))
            if rec and rec.get("fields") and n["k"] == "DeclRefExpr" or "GPSPoint" in f.type(n):
                # filled field by field
                vid = n.get("d", {}).get("id")
                for g in F.owners(f):
                    for b in g.all("BinaryOperator"):
                        if b.get("op") != "=":
                            continue
                        l = unwrap(g, b["c"][0])
                        if l["k"] == "MemberExpr" and l.get("c") and unwrap(g, l["c"][0]).get("d", {}).get("id") == vid:
                            for u in F.term(g, b["c"][1], env):
                                dest.setdefault(norm(u), set()).add((kind, "%s.%s" % (field, last(l["m"]))))

    def always(self, wx, R, norm):
        """data is written unless its absence reads back as the same value"""
        c, P, F = self.c, self.P, self.F
        r = rule(c, "I02.always", "data is written for every element, or left out exactly when the reader's default is the value left out", 12)
        for x, place, vals in wx:
            f, n = x["f"], x["call"]
            vs = [v for v in vals if re.match(r"P\d", v)]
            keyed = None
            p = sorted(place)[0]
            if not vs:
                if not (p.endswith("/@k") and not any(v in ("?",) for v in vals)):
                    continue
                keyed = sorted(vals)[0]
            elif p.endswith("/@v"):
                ks = [w for y, pl, ws in wx for w in ws if y["f"] is f and any(z == p[:-2] + "@k" for z in pl) and not w.startswith("P0")]
                keyed = ks[0] if ks and not any(".attributes[]" in v for v in vs) else None
            prune, how = None, ""
            if keyed is not None:
                q = "%s[k=%s]/@v" % (p.rsplit("/@", 1)[0], keyed)
                dflt = None
                for y in R.get(q, ()):
                    par = y["f"].parent(y["call"])
                    for _ in range(3):
                        if par is not None and par["k"] in CALLS and (par.get("f") or "").startswith("pugi::xml_attribute::as_"):
                            a = [z for z in call_args(y["f"], par) if z["k"] != "CXXDefaultArgExpr"]
                            z = unwrap(y["f"], a[0]) if a else None
                            dflt = float(z["v"]) if z is not None and "v" in z else 0.0 if z is None else None
                            break
                        par = y["f"].parent(par) if par is not None else None
                fld = next((v.rsplit(".", 1)[-1] for y, pl, ws in wx for v in ws if y["f"] is f and p[:-2] + "@v" in pl or p in pl for v in ws if v.startswith("P0") and ".attributes" not in v), None)

                def prune(facts, dflt=dflt, fld=fld):
                    for e in facts or ():
                        if e[0] == "eq" and e[2] and fld and re.search(r"\.%s\b" % fld, e[1]):
                            m = re.search(r"#(-?[\d.eE+-]+)", e[1])
                            if m and dflt is not None and float(m.group(1)) == dflt:
                                return True
                    return False
                how = " (read as %s when absent)" % dflt
            sk = F.skips(x, prune)
            c.ob(r, not sk, loc(f, n), "%s:%s" % (p, "|".join(sorted(vals))), "%s is not always written%s: %s" % ("|".join(sorted(vals)), how, sk[0][2] if sk else ""))

    def members(self, read, norm):
        """references: relation members and way nodes"""
        c, P, F = self.c, self.P, self.F
        r = rule(c, "I02.member", "a relation member is looked up in the container of the type it was written with, by the id and with the role it was written with", 6)
        types = {}
        for k in KINDS:
            for g in P.lib():
                if g.name == "lanelet::osm::%s::type" % k and g.cfg:
                    for n in g.all("StringLiteral"):
                        types[k] = n.get("v")
        if len(types) != 3:
            raise AnalysisBroken("osm primitive types")
        handled = set()
        seen_role = set()
        for x in F.feeds(read, lambda h, n: n["k"] in CALLS and last(n.get("f", "")) in ("emplace_back", "push_back", "emplace_front") and call_obj(h, n) is not None and
                         re.search(r"deque<std::pair<std::basic_string|Roles", h.type(unwrap(h, call_obj(h, n))))):
            f, n = x["f"], x["call"]
            a = x["argn"]
            if len(a) == 1:
                m = unwrap(f, a[0])
                a = [f.node(z) for z in m.get("c", ()) if z is not None]
                if m["k"] in CALLS and last(m.get("f", "")) == "make_pair":
                    a = call_args(f, m)
            if len(a) < 2:
                continue
            role = {norm(t) for t in F.term(f, a[0], x["env"])}
            c.ob(r, role == {"/osm/relation/member/@role"}, loc(f, n), "%s:role:%s" % (f.name, "|".join(sorted(F.term(f, a[1], x["env"])))), "the role of a member is taken from %s" % "|".join(sorted(role)))
            at = next((y for y in self.deepcalls(f, a[1]) if last(y.get("f", "")) in ("at", "find") or y.get("op") == "[]"), None)
            tv = {v for v, o, h, s in self.eqs(f, n) if h}
            kinds = {k for k, v in types.items() if v in tv}
            if at is not None:
                m = re.search(r"lanelet::osm::(Node|Way|Relation)>", f.type(unwrap(f, call_obj(f, at))))
                kind = m.group(1) if m else None
                key = {norm(t) for t in F.term(f, call_args(f, at)[0], x["env"])}
                c.ob(r, kinds == {kind}, loc(f, n), "%s:%s" % (f.name, kind), "a member of type %s is looked up among the %s" % ("/".join(types[k] for k in sorted(kinds)) or "(untested)", KINDS.get(kind)))
                c.ob(r, key == {"/osm/relation/member/@ref"}, loc(f, at), "%s:%s:ref" % (f.name, kind), "a member is looked up by %s" % "|".join(sorted(key)))
                handled |= kinds
            else:
                c.ob(r, kinds == {"Relation"}, loc(f, n), "%s:placeholder" % f.name, "a member of type %s is left to be resolved among the relations" % ("/".join(types[k] for k in sorted(kinds)) or "(untested)"))
                handled |= kinds
        f0 = self.one(r"osm::.*OsmFileParser::read")[0]
        for k in KINDS:
            c.ob(r, k in handled, loc(f0), "handled:%s" % k, "members of type %s are not read" % types[k])
        # nodes of a way
        ats = [x for x in F.feeds(read, lambda h, n: n["k"] in CALLS and last(n.get("f", "")) in ("at", "find") and call_obj(h, n) is not None and
                                  "osm::Node>" in h.type(unwrap(h, call_obj(h, n))))]
        keys = {norm(t) for x in ats for t in F.term(x["f"], x["argn"][0], x["env"])}
        c.ob(r, "/osm/way/nd/@ref" in keys, loc(f0), "way nodes", "the points of a way are looked up by %s" % "|".join(sorted(keys)))

    def deepcalls(self, f, n):
        n = unwrap(f, n)
        for y in wk(f, n):
            if y["k"] in CALLS:
                yield y
            if y["k"] == "DeclRefExpr" and y.get("d", {}).get("k") == "Var":
                i = f.vardef(y["d"]["id"])
                if isinstance(i, dict):
                    yield from (z for z in wk(f, unwrap(f, i)) if z["k"] in CALLS)

    # ------------------------------------------------------------ the map level
    def maplevel(self):
        c, P, F = self.c, self.P, self.F
        w = self.one(r"OsmWriter::toOsmFile$")[0]
        grow = {"emplace", "insert", "insert_or_assign", "try_emplace", "emplace_back", "push_back"}
        feeds = F.feeds(w, lambda h, n: n["k"] in CALLS and last(n.get("f", "")) in grow and call_obj(h, n) is not None and
                        re.search(r"osm::(Node|Way|Relation|Primitive)|map<std::basic_string<char>, std::basic_string<char>>|Roles|Attributes", h.type(unwrap(h, call_obj(h, n)))))
        strip = lambda t: re.sub(r"^P0\.", "", t)
        layers, typeof, roles = {}, {}, []
        byf = {}
        r1 = rule(c, "I02.layer", "every layer of the map is written and every element under its own id", 6)
        for x in feeds:
            f, n = x["f"], x["call"]
            ct = f.type(unwrap(f, call_obj(f, n)))
            m = re.search(r"map<long, lanelet::osm::(Node|Way|Relation)>", ct)
            if m and len(x["argn"]) > 1:
                ks = {strip(t) for t in F.args(x, 0)}
                for k in ks:
                    lm = re.match(r"(\w+)\[\](?:\.(\w+))?$", k)
                    if lm:
                        layers.setdefault(lm.group(1), set()).add(m.group(1))
                        byf.setdefault((f.id, x["outer"][-2][1]["i"] if len(x["outer"]) > 1 else None), lm.group(1))
                        c.ob(r1, lm.group(2) == "id", loc(f, n), "%s:key" % lm.group(1), "an element of %s is written under %s" % lm.groups())
                        con = next((y for y in wk(f, x["argn"][1]) if y["k"] in CALLS and re.match(r"lanelet::osm::(Node|Way|Relation)::\w+$", y.get("f", ""))), None)
                        if con is not None:
                            t = {strip(z) for z in F.term(f, call_args(f, con)[0], x["env"])}
                            c.ob(r1, t == ks, loc(f, con), "%s:id" % lm.group(1), "an element written under %s has id %s" % (sorted(ks), sorted(t)))
                            self.elem(r1, f, x, con, m.group(1), lm.group(1))
        allL = {"pointLayer": "Node", "lineStringLayer": "Way", "polygonLayer": "Way", "laneletLayer": "Relation", "areaLayer": "Relation", "regulatoryElementLayer": "Relation"}
        for l, k in allL.items():
            c.ob(r1, k in layers.get(l, ()), loc(w), "layer:%s" % l, "the writer writes no %s for elements of %s" % (k.lower(), l))
        # type tags and roles
        for x in feeds:
            f, n = x["f"], x["call"]
            ct = f.type(unwrap(f, call_obj(f, n)))
            lay = byf.get((f.id, x["outer"][-2][1]["i"] if len(x["outer"]) > 1 else None))
            if "map<std::basic_string<char>, std::basic_string<char>>" in ct and len(x["argn"]) > 1:
                k = {strval(P, t[2:]) if t.startswith("g:") else t for t in F.args(x, 0)}
                v = {strval(P, t[2:]) if t.startswith("g:") else t for t in F.args(x, 1)}
                if all(z and not z.startswith("P0") and z != "?" for z in k):
                    typeof.setdefault((lay, sorted(k)[0]), []).append((x, v))
            elif re.search(r"deque<|vector<std::pair", ct) and len(x["argn"]) > 1:
                rl = {strval(P, t[2:]) if t.startswith("g:") else t for t in F.args(x, 0)}
                at = next((y for y in self.deepcalls(f, x["argn"][1]) if last(y.get("f", "")) in ("at", "find")), None)
                if at is None:
                    continue
                key = {strip(t) for t in F.term(f, call_args(f, at)[0], x["env"])}
                cont = {t.rsplit(".", 1)[-1] for t in F.term(f, call_obj(f, at), x["env"])}
                for a in rl:
                    for b in key:
                        roles.append((a, b, sorted(cont)[0], x))
        self.types(typeof)
        self.roles(roles)
        self.attributes()
        self.visitor()
        self.rules()

    def elem(self, r, f, x, con, kind, layer):
        """what the object written consists of"""
        P, F, c = self.P, self.F, self.c
        a = call_args(f, con)
        if kind == "Node" and len(a) > 2:
            calls = [y for y in self.deepcalls(f, a[2]) if last(y.get("f", "")) in ("reverse", "forward")]
            c.ob(r, any(last(y["f"]) == "reverse" for y in calls), loc(f, con), "node:projection", "the position of a node is not the point's reverse projection")
        if kind == "Way" and len(a) > 2:
            ts = F.elems(f, a[2], x["env"])
            at = [z for y in wk(f, unwrap(f, a[2])) for z in self.deepcalls(f, y)]
            key = set()
            for g in P.funcs.values():
                if g.kind == "lambda" and any(n2.get("lam") and g.id in n2["lam"] for n2 in f.nodes.values()):
                    for y in g.calls():
                        if last(y.get("f", "")) in ("at", "find"):
                            key |= {re.sub(r"^.*\.", "", t) for t in F.term(g, call_args(g, y)[0], {})}
            if key:
                c.ob(r, key == {"id"}, loc(f, con), "way:%s:nodes" % layer, "the nodes of a way are looked up by %s" % sorted(key))

    def types(self, typeof):
        P, c, F = self.P, self.c, self.F
        r = rule(c, "I02.type", "the type tag written for lanelets, areas and regulatory elements is the one by which the reader recognises them; polygons alone are marked as areas", 6)
        loaders = {}
        for f in self.one(r"FromFileLoader::load\w+$"):
            for n in f.calls():
                q = last(n.get("f", ""))
                o = call_obj(f, n)
                if q in ("emplace", "insert", "insert_or_assign") and o is not None and unwrap(f, o)["k"] == "MemberExpr":
                    loaders.setdefault(last(unwrap(f, o)["m"]), []).append((f, n))
        member = {"laneletLayer": "lanelets_", "areaLayer": "areas_", "regulatoryElementLayer": "regulatoryElements_"}
        tkey = strval(P, "lanelet::AttributeNamesString::Type")
        for lay, mem in member.items():
            ws = [v for (l, k), vs in typeof.items() if l == lay and k == tkey for x, v in vs]
            if not loaders.get(mem):
                raise AnalysisBroken("loader of %s" % mem)
            f, n = loaders[mem][0]
            got = set()
            for x in P.state_at(f, n) or ():
                pass
            for y in f.calls():
                fta = [z for z in (y.get("fta") or []) if isinstance(z, str)]
                val = {strval(P, z) for z in fta if strval(P, z) is not None} if fta else set()
                if not val:
                    continue
                edges = {(b, si) for b, blk in f.cfg["blocks"].items() if "cond" in blk and len(blk["s"]) == 2 for si in (0, 1)
                         if any(z["i"] == y["i"] for z in wk(f, f.nodes[blk["cond"]])) and self.polarity(f, blk["cond"], y["i"], si)}
                if edges and inregion(f, edges, n["i"]):
                    got |= val
                self.istype(r, f, y)
            got |= {v for v, o, h, s in self.eqs(f, n) if h and "Type" in o}
            c.ob(r, bool(ws) and all(v == got for v in ws), loc(f, n), "%s:type" % lay, "elements of %s are written with type %s but read as such when their type is %s" % (
                lay, sorted({z for v in ws for z in v}), sorted(got)))
        # areas
        fs0 = self.one(r"ToFileWriter::writeWays$|OsmWriter::toOsmFile$")[0]
        c.ob(r, any(k == strval(P, "lanelet::AttributeNamesString::Area") for l, k in typeof), loc(fs0), "area tag", "polygons are not marked as areas")
        akey = strval(P, "lanelet::AttributeNamesString::Area")
        for x in [y for (l, k), vs in typeof.items() if k == akey for y, v in vs]:
            f, n = x["f"], x["call"]
            lay = {re.match(r"P0\.(\w+)\[", t).group(1) for t in F.term(f, self.layerarg(f), x["env"]) if re.match(r"P0\.(\w+)\[", t)} if self.layerarg(f) is not None else set()
            const = [f.nodes[blk["cond"]].get("ev") for b, blk in f.cfg["blocks"].items() if "cond" in blk and f.nodes[blk["cond"]].get("ev") is not None and
                     inregion(f, {(b, 0)}, n["i"])]
            live = not any(v == "0" for v in const)
            poly = "olygon" in f.type(f.params[0]) if f.params else None
            c.ob(r, live == bool(poly), loc(f, n), "area:%s" % f.type(f.params[0]), "a way written from %s is%s marked as area" % (f.type(f.params[0]), "" if live else " not"))
        fs = self.one(r"FromFileLoader::loadWays$")
        for f in fs:
            for mem, want in (("polygons_", True), ("lineStrings_", False)):
                for g, n in loaders.get(mem, ()):
                    if g is not f:
                        continue
                    st = P.state_at(f, n) or ()
                    pos = any(x[0] == "true" and x[2] and "Area" in x[1] for x in st)
                    c.ob(r, pos == want, loc(f, n), "read:%s" % mem, "a way goes to %s %s the area tag is known to be set" % (mem, "although" if pos else "without"))

    def layerarg(self, f):
        for n in f.all("DeclRefExpr"):
            if f.params and n.get("d", {}).get("id") == f.params[0]["id"]:
                return n
        return None

    def polarity(self, f, cond, nid, si):
        n = f.nodes[cond]
        neg = False
        while n["k"] == "UnaryOperator" and n.get("op") == "!":
            neg = not neg
            n = unwrap(f, n["c"][0])
        return (si == 1) == neg

    def istype(self, r, f, y):
        P, c = self.P, self.c
        for g in P.targets(y):
            keys = {strval(P, z["d"]["n"]) for z in g.all("DeclRefExpr") if z.get("d", {}).get("k") in ("Var", "Global") and strval(P, str(z["d"].get("n")))}
            neg = [z for z in g.calls() if z.get("op") == "!=" and re.match(r"(const )?std::(__cxx11::)?basic_string", g.type(g.node(z["c"][1])))]
            c.ob(r, strval(P, "lanelet::AttributeNamesString::Type") in keys and not neg, loc(g), "%s:%s" % (g.name, "|".join(str(z) for z in y.get("fta") or [])),
                 "the type of a relation is not the value of its type tag")

    def roleset(self, f, n, depth=0, seen=()):
        """role names an expression is computed from"""
        P = self.P
        out = set()
        n = unwrap(f, n)
        for y in wk(f, n):
            if y["k"] == "DeclRefExpr":
                d = y.get("d", {})
                if "RoleNameString" in str(d.get("n")):
                    out.add(strval(P, d["n"]))
                elif d.get("k") == "Var" and (f.id, d["id"]) not in seen:
                    i = f.vardef(d["id"])
                    if isinstance(i, dict):
                        out |= self.roleset(f, i, depth, seen + ((f.id, d["id"]),))
            if y["k"] in CALLS and depth < 4:
                for g in P.targets(y):
                    if g.loc().startswith("lanelet2_io/src/OsmHandlerLoad") and (g.id, 0) not in seen:
                        for z in g.all("DeclRefExpr"):
                            if "RoleNameString" in str(z.get("d", {}).get("n")):
                                out.add(strval(P, z["d"]["n"]))
        return out - {None}

    def roles(self, roles):
        P, c, F = self.P, self.c, self.F
        r = rule(c, "I02.role", "a bound, ring, centerline or regulatory element is written under the role from which the reader fills it", 7)
        dest = {}
        where = {}
        for f in self.one(r"FromFileLoader::\w+(::\(lambda\)::operator\(\))?$"):
            for n in f.calls():
                q = n.get("f", "")
                if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and q in ("lanelet::Lanelet::Lanelet", "lanelet::Area::Area") and len(call_args(f, n)) > 2:
                    for g in self.wire.targets_of(f, n):
                        for p, a in zip(g.params, call_args(f, n)):
                            rs = self.roleset(f, a)
                            if rs:
                                dest.setdefault((q.split("::")[1], p["n"]), set()).update(rs)
                                where[(q.split("::")[1], p["n"])] = (f, n)
                elif last(q) in ("setCenterline", "setLeftBound", "setRightBound", "setOuterBound", "setInnerBounds"):
                    k = q.split("::")[1], last(q)[3].lower() + last(q)[4:]
                    for a in call_args(f, n):
                        dest.setdefault(k, set()).update(self.roleset(f, a))
                        where[k] = (f, n)
                elif last(q) == "addRegulatoryElement":
                    h = f
                    rs = set()
                    for g, m in P.callers().get(f.id, ()):
                        if f.id in m.get("lam", ()):
                            h = g
                    for m in h.calls():
                        if last(m.get("f", "")) in ("forEachMember", "findRole"):
                            rs |= self.roleset(h, call_args(h, m)[1])
                    o = call_obj(f, n)
                    k = ("Lanelet" if "Lanelet" in f.type(unwrap(f, o)) or "Lanelet" in q else "Area", "regulatoryElements")
                    dest.setdefault(k, set()).update(rs)
                    where[k] = (f, n)
        c.analysed["role_destinations"] = str({"%s.%s" % k: sorted(v) for k, v in dest.items()})
        cls = {"laneletLayer": "Lanelet", "areaLayer": "Area"}
        for role, key, cont, x in roles:
            f, n = x["f"], x["call"]
            m = re.match(r"(\w+)\[\]\.(\w+?)(Polygons?)?(\[\]|\.|\.ids)*(\.id)?(\[\])*$", key)
            if not m or m.group(1) not in cls:
                continue
            acc = m.group(2)
            cand = [(k, v) for k, v in dest.items() if k[0] == cls[m.group(1)] and (k[1].lower() == acc.lower() or k[1].lower().rstrip("s") == acc.lower().rstrip("s"))]
            if not cand:
                c.ob(r, False, loc(f, n), "%s.%s" % (cls[m.group(1)], acc), "%s is written under role %s but the reader fills no %s of a %s from a role" % (key, role, acc, cls[m.group(1)]))
                continue
            k, v = cand[0]
            c.ob(r, v == {role}, loc(*where[k]), "%s.%s" % k, "%s is written under role %s but read from role %s" % (key, role, sorted(v)))
            want = "relations" if acc.startswith("regulatory") else "ways"
            c.ob(r, cont == want, loc(f, n), "%s.%s:container" % k, "the member %s of a %s is looked up among the %s" % (role, k[0], cont))
        got = {(cls.get(re.match(r"(\w+)\[", key).group(1)), role) for role, key, cont, x in roles if re.match(r"(\w+)\[", key)}
        for k, v in dest.items():
            for role in v:
                c.ob(r, (k[0], role) in got, loc(*where[k]), "%s.%s:written" % (k[0], role), "the reader fills %s from role %s, which the writer does not write for a %s" % (k[1], role, k[0]))
        # tie(left, right) = align(left, right)
        for f in self.one(r"FromFileLoader::\w+$"):
            for n in f.calls():
                if n.get("op") == "=" and len(n["c"]) == 3:
                    l, rr = unwrap(f, n["c"][1]), unwrap(f, n["c"][2])
                    while rr["k"] in ("CXXConstructExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and rr.get("c"):
                        rr = unwrap(f, rr["c"][0])
                    if l["k"] in CALLS and last(l.get("f", "")) == "tie" and rr["k"] in CALLS:
                        a = [unwrap(f, y).get("d", {}).get("id") for y in call_args(f, l)]
                        b = [unwrap(f, y).get("d", {}).get("id") for y in call_args(f, rr)]
                        if set(a) == set(b):
                            c.ob(r, a == b, loc(f, n), "%s:align" % f.name, "left and right bound are exchanged when they are aligned")
        # a lanelet's regulatory elements are attached for lanelets and for areas
        top = self.one(r"FromFileLoader::loadMap$")[0]
        att = [n for n in top.calls() if last(n.get("f", "")) == "addRegulatoryElements"]
        kinds = {("Lanelet" if "lanelet::Lanelet" in top.type(unwrap(top, call_args(top, n)[0])) else "Area") for n in att if call_args(top, n)}
        if att:
            c.ob(r, kinds == {"Lanelet", "Area"}, loc(top), "attach", "regulatory elements are attached to %s only" % sorted(kinds))

    def attributes(self):
        P, c, F = self.P, self.c, self.F
        r = rule(c, "I02.attributes", "attributes are carried over as key and value, all of them, in both directions", 2)
        for f in self.one(r"(ToFileWriter|FromFileLoader)::getAttributes$"):
            for x in F.feeds(f, lambda h, n: n["k"] in CALLS and last(n.get("f", "")) in GROW | {"insert_or_assign"} and call_obj(h, n) is not None or n.get("op") == "=" ):
                g, n = x["f"], x["call"]
                if n.get("op") == "=":
                    l = unwrap(g, n["c"][1])
                    if l["k"] not in CALLS or l.get("op") != "[]":
                        continue
                    kv = [g.node(l["c"][2]), g.node(n["c"][2])]
                else:
                    kv = x["argn"]
                    if len(kv) == 1:
                        m = unwrap(g, kv[0])
                        for _ in range(3):
                            if m["k"] in ("CXXConstructExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and len(m.get("c", ())) == 1:
                                m = unwrap(g, m["c"][0])
                        kv = call_args(g, m) if m["k"] in CALLS else [g.node(y) for y in m.get("c", ())]
                if len(kv) < 2:
                    continue
                t = [sorted(F.term(g, y, x["env"])) for y in kv[:2]]
                ok = t[0] == ["P0[].first"] and t[1] == ["P0[].second"]
                c.ob(r, ok, loc(g, n), "%s:kv" % f.name, "an attribute is carried over with key %s and value %s" % tuple(t))
                sk = F.skips(x)
                c.ob(r, not sk, loc(g, n), "%s:all" % f.name, "not every attribute is carried over: %s" % (sk[0][2] if sk else ""))
        # orientation of linestrings
        for f in self.one(r"ToFileWriter::writeWays$"):
            for n in f.calls():
                a = call_args(f, n)
                for y in a:
                    z = unwrap(f, y)
                    if z["k"] in CALLS and last(z.get("f", "")) == "invert":
                        st = P.state_at(f, n) or ()
                        c.ob(r, any(x[0] == "true" and x[2] and "inverted()" in x[1] for x in st), loc(f, n), "%s:invert" % f.name, "a line string that is not inverted is written in opposite direction")

    def visitor(self):
        P, c, F = self.P, self.c, self.F
        r = rule(c, "I02.parameter", "a parameter of a regulatory element is written as a member of its kind, with its role", 5)
        fs = self.one(r"WriteRegulatoryElementVisitor::operator\(\)$")
        want = {"Point": "nodes", "LineString": "ways", "Polygon": "ways", "Lanelet": "relations", "Area": "relations"}
        seen = set()
        for f in fs:
            k = next((k for k in want if k in f.type(f.params[0])), None)
            if k is None:
                continue
            seen.add(k)
            xs = [x for x in F.feeds(f, lambda h, n: n["k"] in CALLS and last(n.get("f", "")) in ("emplace_back", "push_back") and call_obj(h, n) is not None and
                                     re.search(r"deque<", h.type(unwrap(h, call_obj(h, n)))))]
            c.ob(r, bool(xs), loc(f), "%s:member" % k, "a %s parameter adds no member to the relation" % k)
            for x in xs:
                g, n = x["f"], x["call"]
                a = x["argn"]
                if len(a) < 2:
                    continue
                at = next((y for y in self.deepcalls(g, a[1]) if last(y.get("f", "")) in ("at", "find")), None)
                c.ob(r, {t.rsplit(".", 1)[-1] for t in F.term(g, a[0], x["env"])} == {"role"}, loc(g, n), "%s:role" % k, "the role of a %s parameter is %s" % (k, sorted(F.term(g, a[0], x["env"]))))
                if at is not None:
                    cont = {t.rsplit(".", 1)[-1] for t in F.term(g, call_obj(g, at), x["env"])}
                    key = {re.sub(r"\.lock(?=\.)", "", t) for t in F.term(g, call_args(g, at)[0], x["env"])}
                    c.ob(r, cont == {want[k]}, loc(g, n), "%s:container" % k, "a %s parameter is looked up among the %s" % (k, sorted(cont)))
                    c.ob(r, key == {"P0.id"}, loc(g, n), "%s:id" % k, "a %s parameter is looked up by %s" % (k, sorted(key)))
                else:
                    c.ob(r, want[k] == "relations", loc(g, n), "%s:container" % k, "a %s parameter is left to be resolved among the relations" % k)
                    rec = [y for y in wk(f, next(iter(f.all("CompoundStmt")))) if y["k"] in ("InitListExpr", "CXXConstructExpr") and "UnresolvedRole" in f.type(y) and len(y.get("c", ())) >= 2]
                    for y in rec[:1]:
                        ts = F.term(f, y["c"][1], x["env"])
                        c.ob(r, ts == {"P0.id"}, loc(f, y), "%s:id" % k, "a %s parameter is resolved by %s" % (k, sorted(ts)))
        for k in want:
            c.ob(r, k in seen, loc(fs[0]), "kind:%s" % k, "%s parameters are not written" % k)

    def rules(self):
        """reading the parameters of a regulatory element"""
        P, c, F = self.P, self.c, self.F
        r = rule(c, "I02.read-parameter", "a member of a regulatory element is read as a parameter of the kind it was written from, with its role and id", 5)
        AV = lambda s: strval(P, "lanelet::AttributeValueString::" + s)
        need = {"points_": {AV("Node")}, "polygons_": {AV("Way")}, "lineStrings_": {AV("Way")}, "lanelets_": {AV("Relation"), AV("Lanelet")},
                "areas_": {AV("Relation"), AV("Multipolygon")}}
        seen = set()
        fs = self.one(r"FromFileLoader::getRulesForRegulatoryElement$")
        for f in fs:
            for n in f.calls():
                if last(n.get("f", "")) not in ("emplace_back", "push_back") or call_obj(f, n) is None:
                    continue
                o = unwrap(f, call_obj(f, n))
                if o["k"] == "DeclRefExpr" and isinstance(f.vardef(o.get("d", {}).get("id")), dict):
                    o = unwrap(f, f.vardef(o["d"]["id"]))
                if not (o["k"] in CALLS and o.get("op") == "[]"):
                    continue
                src = [y for y in self.deepcalls(f, call_args(f, n)[0])]
                mem = {last(z["m"]) for y in src for z in wk(f, y) if z["k"] == "MemberExpr" and last(z["m"]).endswith("_")}
                mem &= set(need)
                if len(mem) != 1:
                    c.note("parameter at %s: from %s" % (loc(f, n), sorted(mem)))
                    continue
                mem = mem.pop()
                seen.add(mem)
                kind = {v for v, ot, h, s in self.eqs(f, n) if h}
                c.ob(r, need[mem] <= kind and not (kind & (set().union(*need.values()) - need[mem])), loc(f, n), "%s:type" % mem,
                     "a parameter is taken from %s for a member known to be %s" % (mem, sorted(kind)))
                if mem in ("polygons_", "lineStrings_"):
                    fs_ = [x for y in src + [n] for x in P.state_at(f, y) or () if "polygons_" in x[1]]
                    has = {x[2] for x in fs_ if x[0] == "isend"} | {not x[2] for x in fs_ if x[0] == "has"} | {x[2] for x in fs_ if x[0] == "eq" and "count(" in x[1] and re.search(r"#0\b", x[1])}
                    c.ob(r, has == {mem == "lineStrings_"}, loc(f, n), "%s:lookup" % mem,
                         "a way is read as %s %s" % ("polygon" if mem == "polygons_" else "line string", "without being among the polygons" if mem == "polygons_" else "although it may be a polygon"))
                role = F.term(f, o["c"][2], {})
                c.ob(r, role == {"P1[].first"}, loc(f, n), "%s:role" % mem, "the parameter is stored under role %s" % sorted(role))
                ids = {t for y in src for a in call_args(f, y)[1:2] for t in F.term(f, a, {})}
                c.ob(r, ids == {"P1[].second.id"} or not ids, loc(f, n), "%s:id" % mem, "the parameter is looked up by %s" % sorted(ids))
        for m in need:
            c.ob(r, m in seen, loc(fs[0]), "kind:%s" % m, "no parameter is read from %s" % m)

    # ------------------------------------------------------------ positions after an erase
    def erased(self):
        P, c, F = self.P, self.c, self.F
        r = rule(c, "I02.erase", "positions recorded before an element is erased are corrected for the erasure before they are used again", 1)
        for f in P.lib():
            if not f.cfg or f.flag("dep") or not f.loc().startswith("lanelet2_io/src"):
                continue
            er = [n for n in f.calls() if last(n.get("f", "")) == "erase" and call_obj(f, n) is not None and len(call_args(f, n)) == 1]
            dist = [n for n in f.calls() if last(n.get("f", "")) == "distance"]
            nxt = [n for n in f.calls() if last(n.get("f", "")) in ("next", "advance")]
            cont = lambda n: re.search(r"deque|vector|list", f.type(unwrap(f, call_obj(f, n))))
            for e in er:
                if not cont(e):
                    continue
                ob = self.vid(f, call_obj(f, e))
                itv = self.vid(f, call_args(f, e)[0])
                if ob is None or itv is None:
                    continue
                ds = [n for n in dist if any(y["k"] == "DeclRefExpr" and y.get("d", {}).get("id") == ob for y in wk(f, n)) and self.before(f, n, e)]
                ns = [n for n in nxt if any(y["k"] == "DeclRefExpr" and y.get("d", {}).get("id") == ob for y in wk(f, n)) and self.before(f, e, n)]
                if not ds or not ns:
                    continue
                for dn in ds:
                    # compared with the erased position before it is stored
                    cmpn = [n for n in f.nodes.values() if (n["k"] == "BinaryOperator" or n["k"] == "CXXOperatorCallExpr") and n.get("op") in ("<", ">", "<=", ">=") and
                            any(y["k"] == "DeclRefExpr" and y.get("d", {}).get("id") == self.vid(f, call_args(f, e)[0]) or self.derives(f, y, self.vid(f, call_args(f, e)[0])) for y in wk(f, n))]
                    sub = [n for n in f.nodes.values() if n["k"] in ("BinaryOperator", "UnaryOperator", "CompoundAssignOperator") and n.get("op") in ("-", "--", "-=")]
                    c.ob(r, bool(cmpn) and bool(sub), loc(f, dn), "%s:%s" % (f.name, f.loc().split(":")[0].rsplit("/", 1)[-1]),
                         "positions taken before the erase at line %d are used at line %d without allowing for the erased element" % (e["l"], ns[0]["l"]))

    def vid(self, f, n):
        n = unwrap(f, n)
        for y in wk(f, n):
            if y["k"] == "DeclRefExpr" and y.get("d", {}).get("k") in ("Var", "Parm"):
                return y["d"]["id"]

    def derives(self, f, y, vid):
        if y["k"] != "DeclRefExpr" or y.get("d", {}).get("k") != "Var":
            return False
        i = f.vardef(y["d"]["id"])
        return isinstance(i, dict) and any(z["k"] == "DeclRefExpr" and z.get("d", {}).get("id") == vid for z in wk(f, i))

    def before(self, f, a, b):
        from .C06 import reach_node
        return a["l"] < b["l"]


def run(c):
    r = Run(c)
    r.xml()
    r.maplevel()
    r.erased()
