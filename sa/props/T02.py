"""T02: explicit tags and rules win over defaults, and an explicit answer is returned as it is."""
import itertools, re
from ..core import *
from ..ccp import CCP, TOP, BOT, join
from .T01 import derived, elem


class Opt:
    """an optional with known content (None: absent)"""
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v is not None

    def __eq__(self, o):
        return isinstance(o, Opt) and o.v == self.v

    def __hash__(self):
        return hash(("opt", self.v))

    def __lt__(self, o):
        return str(self.v) < str(getattr(o, "v", o))

    def __repr__(self):
        return f"Opt({self.v})"


def tag_of(key):
    m = re.findall(r"AttributeNames?(?:String)?::(\w+)", key)
    return m[0] if m and all(x == m[0] for x in m) else None


class Model(CCP):
    def __init__(self, P, has, get, world, **kw):
        super().__init__(P, **kw)
        self.has, self.get, self.world, self.used = has, get, world, set()

    def use(self, k):
        self.used.add(k)
        return self.world.get(k, TOP)

    def eval(self, f, n, env, d=0):
        n0 = f.node(n)
        u = unwrap(f, n0)
        v = self.leaf(f, u, env, d) if u is not None else None
        return v if v is not None else super().eval(f, n0, env, d)

    def leaf(self, f, n, env, d):
        P = self.P
        k = n["k"]
        if k in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t = f.type(n)
            cc = [x for x in n.get("c") or () if f.node(x)["k"] != "CXXDefaultArgExpr"]
            if "SpeedLimitInformation" in t and "optional" not in t and len(cc) == 2:
                return ("set", self.eval(f, cc[0], env, d + 1), self.eval(f, cc[1], env, d + 1))
            if re.search(r"\boptional<", t):
                if not cc:
                    return Opt(None)
                if len(cc) == 1:
                    if "none_t" in f.type(f.node(cc[0])):
                        return Opt(None)
                    a = self.eval(f, cc[0], env, d + 1)
                    if a is TOP or isinstance(a, Opt):
                        return a if a is not TOP else None
                    return Opt(a)
                if len(cc) == 2:
                    a, b = self.eval(f, cc[0], env, d + 1), self.eval(f, cc[1], env, d + 1)
                    if a is TOP or isinstance(a, Opt):
                        return None
                    return Opt(None) if not a else (Opt(b) if b is not TOP else None)
            if len(cc) == 1:
                r = self.eval(f, cc[0], env, d + 1)
                return r if r is not TOP else None
            return None
        if k == "DeclRefExpr" and "none_t" in f.type(n):
            return Opt(None)
        if k not in CALLS:
            return None
        s = short(n.get("f") or "")
        o = call_obj(f, n)
        if o is None and n.get("op") in ("*", "!") and len(n.get("c", ())) == 2:
            o = n["c"][1]
        if o is not None and (n.get("op") == "*" or s in ("get", "value", "operator*", "get_value_or", "value_or", "has_value",
                                                          "is_initialized", "operator!", "operator bool")):
            v = self.eval(f, o, env, d + 1)
            if isinstance(v, Opt):
                if s in ("get_value_or", "value_or"):
                    a = call_args(f, n)
                    return v.v if v else self.eval(f, a[0], env, d + 1)
                if s in ("has_value", "is_initialized", "operator bool"):
                    return int(bool(v))
                if s == "operator!":
                    return int(not v)
                return v.v if v else "undefined"
        if s == "inverted" and o is not None:
            v = self.eval(f, o, env, d + 1)
            return v if v is not TOP else None
        if s == "invert" and o is not None:
            v = self.eval(f, o, env, d + 1)
            return 1 - v if v in (0, 1) and v is not TOP else None
        if s == "attributeOr" and o is not None:
            a = call_args(f, n)
            t = tag_of(P.key(f, a[0])) if a else None
            if t == "OneWay":
                v = self.use("oneway")
                ty = f.type(n)
                if "optional" in ty:
                    return v
                dv = self.eval(f, a[1], env, d + 1)
                return v.v if v else (dv if dv is not TOP else None)
            return None
        if n.get("op") in ("==", "!="):
            ks = [P.key(f, x) for x in n["c"][1:]] if k == "CXXOperatorCallExpr" else []
            ks = [x for x in ks if re.search(r"Participants::\w+", x)]
            if len(ks) == 1:
                v = self.world.get("is:" + re.search(r"Participants::(\w+)", ks[0]).group(1), TOP)
                if v is not TOP:
                    return v if n["op"] == "==" else 1 - v
            return None
        ts = [g for g in P.targets(n)]
        if any(g.id in self.has for g in ts):
            a = call_args(f, n)
            t = tag_of(self.bound(f, a[1], env))
            return self.use(("has", t))
        if any(g.id in self.get for g in ts):
            a = call_args(f, n)
            t, t2 = tag_of(self.bound(f, a[1], env)), tag_of(self.bound(f, a[2], env)) or (
                "Participant" if re.search(r"\btag\(", P.key(f, a[2])) else None)
            if t != t2:
                return ("mixed", t, t2)
            return self.use(("get", t))
        # table by type and location, answer of the regulatory elements
        fs = n.get("f") or ""
        a = call_args(f, n)
        rt = f.type(n)
        if "optional<" in rt and o is not None and "::traffic_rules::" in fs:
            tys = [f.type(f.node(x)) for x in a]
            if len(a) == 1 and "RegulatoryElement" in tys[0] and "vector" in tys[0]:
                return self.use("reg")
            if len(a) == 2 and all("basic_string" in t for t in tys):
                return self.use("table")
        if "SpeedLimitInformation" in rt and len(a) >= 2 and any("CountrySpeedLimits" in f.type(f.node(x)) for x in a):
            return "bytype"
        return None

    def bound(self, f, a, env):
        """key of an argument; strings handed down through parameters are followed to the caller"""
        k = self.P.key(f, a)
        return k


def overrides(P):
    has, get = {}, {}
    for f in P.lib():
        if "traffic_rules" not in f.name or f.flag("dep") or not f.params or f.kind != "func":
            continue
        if "AttributeNamesString::Map" not in f.ptype(f.params[0]) and "AttributeMap" not in f.ptype(f.params[0]):
            continue
        st = [p for p in f.params[1:] if "basic_string" in f.ptype(p)]
        b = {short(x.get("f") or "") for x in f.calls()}
        if f.ret() == "bool" and len(f.params) == 2 and len(st) == 1:
            has[f.id] = f
        elif len(f.params) == 4 and len(st) == 2 and f.ret() == f.ptype(f.params[3]):
            get[f.id] = f
    return has, get


def run(c):
    P = c.program("traffic_rules")
    c.rule("usable", "for every combination of orientation, one-way tag, regulatory element answer, participant tag and default, the "
           "passability query yields the answer of the first explicit source that has one (abstract execution over the finite "
           "lattice of these answers)", 60)
    c.rule("direction", "an inverted lanelet is only driven against a one-way tag saying no; explicit tags win over the default", 4)
    c.rule("speed", "the speed limit comes from the regulatory elements first, then from explicit tags, and only then from the type", 4)
    c.rule("override-read", "explicit overrides are searched by matching prefix and returned un-negated; the default is only used "
           "without a hit", 2)
    c.rule("tables", "default tables and look-ups use location and type in the same position and pick the field of that name", 5)
    c.rule("rule-set", "the rule sets ask every regulatory element and return that element's own value", 1)
    has, get = overrides(P)
    rules = derived(P, "lanelet::traffic_rules::TrafficRules")
    inscope = lambda g: "traffic_rules" in g.name and g.kind in ("func", "method", "lambda") and g.id not in has and g.id not in get
    opts = [Opt(None), Opt(0), Opt(1)]
    hg = [(0, TOP), (1, 0), (1, 1)]
    undecided = 0

    def decide(f, env, world, want, rule, key, what):
        nonlocal undecided
        m = Model(P, has, get, world, inscope=inscope)
        r = m.run(f, env).ret
        if r is TOP or r == BOT or isinstance(r, tuple) and None in r[1:] and r[0] != "mixed":
            undecided += 1
            return
        c.ob(rule, r == want, f.loc(), key, f"{f.name}: with {what} the answer is {r}, expected {want}", what)

    npass = 0
    for f in P.lib():
        if f.cls not in rules or f.kind != "method" or not f.cfg or f.flag("dep"):
            continue
        if f.short == "canPass" and len(f.params) == 1 and elem(f.ptype(f.params[0])) and f.cls.endswith("GenericTrafficRules"):
            npass += 1
            area = "Area" in f.ptype(f.params[0])
            pid = f.params[0]["id"]
            for inv, ow, (ho, go), reg, (hp, gp), tab, ped in itertools.product((0, 1), opts, hg, opts, hg, opts, (0, 1)):
                if (area or inv == 0) and (ow or ho or ped or area and inv):
                    continue
                if ped and (ow or ho):
                    continue
                w = {"oneway": ow, ("has", "OneWay"): ho, ("get", "OneWay"): go, "reg": reg, ("has", "Participant"): hp,
                     ("get", "Participant"): gp, "table": tab, "is:Pedestrian": ped, "is:Vehicle": 0, "is:Bicycle": 0}
                drive = 1 if not inv or area else 1 - ow.v if ow else 1 - go if ho else ped
                want = 0 if not drive else reg.v if reg else gp if hp else tab.v if tab else 0
                if drive and not reg and not hp and not tab:
                    want = 0
                what = (f"inverted={inv} one_way={ow.v} one_way-override={go if ho else None} rules={reg.v} "
                        f"participant-tag={gp if hp else None} default={tab.v} pedestrian={ped}")
                cls = "rules" if drive and reg else "tag" if drive and hp else "default" if drive else "direction"
                decide(f, {} if area else {pid: inv}, w, want, "usable", f"{f.name}|{'area' if area else 'lanelet'}|{cls}", what)
        if f.short == "isOneWay" and len(f.params) == 1:
            for inv, ow, (ho, go), ped in itertools.product((0, 1), opts, hg, (0, 1)):
                w = {"oneway": ow, ("has", "OneWay"): ho, ("get", "OneWay"): go, "is:Pedestrian": ped}
                back = 1 - ow.v if ow else 1 - go if ho else ped
                decide(f, {f.params[0]["id"]: inv}, w, int(back != 1), "direction", f"{f.name}|oneway",
                       f"inverted={inv} one_way={ow.v} override={go if ho else None} pedestrian={ped}")
        if f.short == "speedLimit" and "optional" not in f.ret() and len(f.params) == 2:
            for reg, hs, hm in itertools.product((Opt(None), Opt("of the rule")), (0, 1), (0, 1)):
                w = {"reg": reg, ("has", "SpeedLimit"): hs, ("has", "SpeedLimitMandatory"): hm, ("get", "SpeedLimit"): "speed_limit tag",
                     ("get", "SpeedLimitMandatory"): "mandatory tag"}
                want = reg.v if reg else ("set", "speed_limit tag", "mandatory tag") if hs or hm else "bytype"
                decide(f, {}, w, want, "speed", f"{f.name}|{'rule' if reg else 'tag' if hs or hm else 'type'}",
                       f"rule limit={reg.v} speed_limit tag={hs} mandatory tag={hm}")
        # a rule set's own answer
        if f.short == "speedLimit" and "optional" in f.ret():
            for r, st in P.returns(f):
                k = P.key(f, r["c"][0]) if r.get("c") else ""
                if re.fullmatch(r"(optional\(.*\)|\{\})?", k) and "type" not in k:
                    loops = [x for x in f.all(("CXXForRangeStmt", "ForStmt", "WhileStmt")) if any(y["i"] == r["i"] for y in (f.node(z) for z in walk(x)))]
                    c.ob("rule-set", not loops, f.loc(r), f"{f.name}|giveup", f"{f.name} gives up after the first regulatory element "
                         "that is no speed limit although later ones may be")
                    continue
                sl = set(re.findall(r"v:[\w]+#\d+:\d+", k))
                casts = re.findall(r"dynamic_pointer_cast", k)
                t = re.search(r"\.type\(\)", k)
                c.ob("rule-set", bool(t), f.loc(r), f"{f.name}|value", f"{f.name} does not return the limit given by the regulatory element")
    c.analysed["passability_queries"] = npass
    if npass < 2 or not has or not get:
        c.note(f"override accessors found: has={len(has)} get={len(get)}")
    if undecided:
        c.note(f"{undecided} combinations undecided (answer depends on values outside the model)")
    # which participant's tag is asked for, what is the fallback
    EXP = {"OneWay": "#1", "Participant": "#0", "SpeedLimitMandatory": "#1"}
    for g in get.values():
        for cf, n in P.callsites(g.id):
            if cf.flag("dep"):
                continue
            a = call_args(cf, n)
            t = tag_of(P.key(cf, a[1]))
            k2, k3 = P.key(cf, a[2]), P.key(cf, a[3])
            rest = re.sub(r"g:[\w:]*AttributeNames?(String)?::\w+|g:[\w:\"]+", "", k2)
            c.ob("override-read", bool(re.search(r"v:|this\.", rest)), cf.loc(n), f"{cf.name}|{t}|participant",
                 f"the override of '{t}' is looked up without the participant ({k2[:80]})")
            if t in EXP and re.fullmatch(r"#[01]", k3):
                c.ob("override-read", k3 == EXP[t], cf.loc(n), f"{cf.name}|{t}|default",
                     f"without a matching entry the override of '{t}' defaults to {k3[1:]} instead of {EXP[t][1:]}")
            if t == "SpeedLimit":
                sl = " ".join(P.key(h, x) for h, x in P.slice(cf, a[3]) if x["k"] == "DeclRefExpr")
                c.ob("override-read", "AttributeName::SpeedLimit" in sl or "AttributeNamesString::SpeedLimit" in sl, cf.loc(n),
                     f"{cf.name}|{t}|plain", "the plain speed_limit tag is not used where no participant specific one matches")
    for g in list(has.values()) + list(get.values()):
        isget = g.id in get
        pre = "v:" + g.params[2 if isget else 1]["id"]
        for l in [x for x in P.lib() if x.kind == "lambda" and x.d.get("parent") == g.id]:
            for n in l.calls():
                a = call_args(l, n)
                ts = [x for x in P.targets(n) if x.ret() == "bool" and "traffic_rules" in x.name]
                if len(a) == 2 and ts:
                    k = [P.key(l, x) for x in a]
                    at = [i for i in (0, 1) if k[i].endswith(".first")]
                    tg = [i for i in (0, 1) if k[i] == pre]
                    if len(at) == 1 and len(tg) == 1:
                        c.ob("override-read", at[0] == (1 if isget else 0), l.loc(n), f"{g.name}|prefix",
                             ("the tag of the element has to be a prefix of the searched override" if isget else
                              "the override name has to be a prefix of the tag of the element"))
                    elif isget and len(at) == 1:
                        c.ob("override-read", False, l.loc(n), f"{g.name}|what",
                             f"the override is compared with {k[1 - at[0]]} instead of the requested one")
        for l in [x for x in P.lib() if x.kind == "lambda" and x.d.get("parent") == g.id and x.ret() == "bool"]:
            for size, sw in itertools.product((7, 12), (0, 1)):
                def oracle(h, n, size=size, sw=sw):
                    k = P.key(h, n)
                    if k.endswith(".first.size()") or k.endswith(".first.length()"):
                        return size
                    if re.fullmatch(r"v:[\w#:]+\.(size|length)\(\)", k):
                        return 7
                    if n["k"] in CALLS and h.type(n) == "bool" and len(call_args(h, n)) == 2 and any(
                            "traffic_rules" in x.name and x.ret() == "bool" for x in P.targets(n)):
                        return sw
                    return None
                r = CCP(P, oracle, inscope=lambda g: False).run(l).ret
                if r not in (0, 1):
                    undecided += 1
                    continue
                c.ob("override-read", bool(r) == bool(sw), l.loc(), f"{g.name}|hit{size - 7 and 'longer' or 'same'}{sw}",
                     f"a tag {'as long as' if size == 7 else 'longer than'} the override's prefix that {'matches' if sw else 'does not match'} "
                     f"is {'' if r else 'not '}taken as an override")
        if isget:
            dv = "v:" + g.params[3]["id"]
            for r, st in P.returns(g):
                k = P.key(g, r["c"][0])
                if k == dv:
                    ok = not any(x[0] in ("has",) and x[2] for x in st)
                    c.ob("override-read", ok, g.loc(r), f"{g.name}|default", "the default is returned although an override was found")
                else:
                    c.ob("override-read", ".second" in k and not k.startswith("!"), g.loc(r), f"{g.name}|value",
                         f"the override's value is not returned as it is ({k[:80]})")
    for g in [x for x in P.lib() if x.short == "startswith" and "traffic_rules" in x.name and len(x.params) == 2]:
        a, b = ("v:" + p["id"] for p in g.params)
        for r, st in P.returns(g):
            k = P.key(g, r["c"][0])
            if a in k and b in k and "compare(" in k:
                c.ob("override-read", k.startswith(f"({a}.compare(#0,{b}.size()") and "==" in k or k.startswith("(#0=="), g.loc(r), f"{g.name}|prefix",
                     f"the prefix test is not a prefix test ({k})")
    for g in P.lib():
        if g.short == "tag" and "Participants" in g.name and len(g.params) == 1:
            for r, st in P.returns(g):
                k = P.key(g, r["c"][0])
                c.ob("override-read", tag_of(k) == "Participant" and "v:" + g.params[0]["id"] in k, g.loc(r), f"{g.name}|tag",
                     f"the participant tag is built as {k[:80]}")
    # default tables
    for f in P.lib():
        if "traffic_rules" not in f.name or f.flag("dep"):
            continue
        if any("CountrySpeedLimits" in f.ptype(p) for p in f.params):
            rows = []
            for n in f.all(("InitListExpr", "CXXConstructExpr")):
                k = P.key(f, n)
                u = [re.search(r"AttributeValueString::(\w+)", x) for x in re.findall(r"g:lanelet::AttributeValueString::\w+", k)]
                m = re.findall(r"CountrySpeedLimits::(\w+)", k)
                if len(u) == 2 and len(m) == 1:
                    rows.append((u[0].group(1), u[1].group(1), m[0], n))
            seen = set()
            for loc, ty, fld, n in rows:
                if (loc, ty, fld) in seen:
                    continue
                seen.add((loc, ty, fld))
                fl = fld.lower()
                ok = loc in ("Urban", "Nonurban")
                if "urban" in fl:
                    ok = ok and ("nonurban" in fl) == (loc == "Nonurban")
                    if ty in ("Road", "Highway"):
                        ok = ok and ty.lower() in fl
                elif ty in ("Road", "Highway"):
                    ok = False
                c.ob("tables", ok, f.loc(n), f"{f.name}|{loc}|{ty}", f"the limit of ({loc}, {ty}) is taken from '{fld}'")
            first = {r[0] for r in rows}
            for n in f.calls():
                if short(n.get("f") or "") == "make_pair" and len(call_args(f, n)) == 2 and rows:
                    ks = [P.key(f, f.vardefs[root_var(f, x)]) if f.vardefs.get(root_var(f, x)) is not None else P.key(f, x)
                          for x in call_args(f, n)]
                    nm = [re.findall(r"AttributeName(?:sString)?::(\w+)", k) for k in ks]
                    if all(nm):
                        c.ob("tables", nm[0][0] == "Location" and nm[1][0] in ("Subtype", "Type") if first <= {"Urban", "Nonurban"} else True,
                             f.loc(n), f"{f.name}|lookup", f"looked up by ({nm[0][0]}, {nm[1][0]}) but the table is keyed by location and type")
            for r, st in P.returns(f):
                k = P.key(f, r["c"][0]) if r.get("c") else ""
                m = re.search(r"\.(pedestrian|bicycle)\b", k)
                if m:
                    p = [re.search(r"Participants::(\w+)", x[1] + str(x[3:] if len(x) > 3 else "")) for x in st if x[0] in ("eq", "true") and x[2]]
                    p = [x.group(1).lower() for x in p if x]
                    if p:
                        c.ob("tables", m.group(1) in p, f.loc(r), f"{f.name}|{m.group(1)}", f"the {m.group(1)} limit is used for {p}")
        for n in f.calls():
            a = call_args(f, n)
            if "optional<bool>" in f.type(n) and len(a) == 2 and f.cls in rules:
                ks = [re.findall(r"AttributeName(?:sString)?::(\w+)", P.key(f, x)) for x in a]
                if all(ks):
                    c.ob("tables", ks[0][0] in ("Subtype", "Type") and ks[1][0] == "Location", f.loc(n), f"{f.name}|{f.ptype(f.params[0])[-12:]}|args",
                         f"defaults by type and location are asked with ({ks[0][0]}, {ks[1][0]})")
