"""R03: options of a query are never silently ignored."""
import re
from ..core import *
from ..flow import Flow, RET, THIS, CTL
from .Y01 import bare, norm, tokens
from .V02 import wk

# in memory the map file takes no configuration: osm::write has no setting, see DESIGN.md
NOCONF = {"lanelet::io_handlers::OsmWriter"}


# (function, parameter): the callee's parameter of that name means something else there
OTHER = {
    ("lanelet::routing::RoutingGraph::checkValidity", "throwOnError"): "what neighboringLaneletImpl throws is caught and becomes an entry of the list",
    ("OsmFileWriter::writeNodes", "josm_format_elevation"): "coordinates always have all digits, only the elevation is shortened",
}
OPTIONS = ("PossiblePathsParams", "ValidationConfig", "RoutingGraph::Configuration", "Configuration", "ErrorMessages", "std::string", "Regex",
           "RoutingCostId", "RelationType", "std::regex")


def option(t):
    """types of switches, limits, ids and settings as opposed to the elements worked on"""
    b = bare(t)
    m = re.match(r"^(?:boost::optional|lanelet::Optional|Optional|boost::optional_ns::optional)<(.*)>$", b)
    if m:
        b = m.group(1).strip()
    return bool(re.match(r"^(bool|double|float|int|unsigned.*|long.*|short|char|u?int\d+_t|std::u?int\d+_t|size_t|std::size_t|Id|lanelet::Id)$", b)) or \
        any(b.split("<")[0].endswith(x) for x in OPTIONS) or b.startswith("std::basic_string<") or b.startswith("std::map<std::basic_string")


def toks(s):
    return set(tokens(s))


def last(q):
    return re.sub(r"<.*", "", q).split("::")[-1]


def run(c):
    P = c.program("core", "io", "projection", "traffic_rules", "routing", "matching", "validation", "wit_match", "wit_proj", "wit_views", "wit_cont")
    R03(c, P).run()


class R03:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.F = Flow(P)
        self.lib = [f for f in P.lib() if not f.flag("dep") and "/lanelet2_" in f.file and "/test/" not in f.file]

    def run(self):
        self.used()
        self.hand()
        self.fields()
        self.limits()

    # ------------------------------------------------------------ every parameter is looked at
    def refs(self, f, pid):
        """uses of the parameter's value in f and the lambdas in it"""
        out = []
        fs = [f]
        for n in f.nodes.values():
            if n["k"] == "LambdaExpr":
                fs += [l for l in self.P.lambdas(n)]
        seen = set()
        while fs:
            g = fs.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            for n in g.nodes.values():
                if n["k"] == "LambdaExpr" and g is not f:
                    fs += self.P.lambdas(n)
                if n["k"] == "DeclRefExpr" and (n.get("d") or {}).get("id") == pid:
                    out.append((g, n))
        return out

    def discarded(self, g, n, ref=False):
        """the reference is only written to silence the compiler, or is overwritten"""
        p = g.parent(n)
        x = n
        while p is not None and p["k"] in ("ParenExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "ImplicitCastExpr"):
            if g.type(p) == "void":
                return True
            p, x = g.parent(p), p
        if p is None:
            return False
        if p["k"] == "CompoundStmt":
            return True
        if p["k"] in CALLS and p.get("f") in ("boost::ignore_unused", "std::ignore"):
            return True
        if ref:
            return False
        if p["k"] == "BinaryOperator" and p.get("op") == "=" and g.node(p["c"][0]) is x:
            return True
        if p["k"] == "CXXOperatorCallExpr" and p.get("op") == "=" and len(p["c"]) == 3 and g.node(p["c"][1]) is x:
            return True
        return False

    def used(self):
        c = self.c
        c.rule("R03.used", "every named parameter takes part in what the function returns, writes or does", 400)
        self.dead = {}
        for f in self.lib:
            if f.kind == "lambda" or f.d.get("body") is None:
                continue
            for i, p in enumerate(f.params):
                if not p["n"]:
                    continue
                why = self.unused(f, i, p)
                if why and self.inmemory(f):
                    c.note("%s: %s has no setting to read" % (f.loc(), f.name))
                    continue
                c.ob("R03.used", not why, f.loc(), "used %s.%s" % (f.name, p["n"]), "%s %s its argument %s" % (f.name, why or "uses", p["n"]))

    def inmemory(self, f):
        return "ToFileWriter" in f.name or any(f.cls == x or f.name.startswith(x + "::") for x in NOCONF)

    def unused(self, f, i, p):
        ref = bool(re.search(r"[&*]$", f.ptype(p).rstrip()))
        rs = [(g, n) for g, n in self.refs(f, p["id"]) if not self.discarded(g, n, ref)]
        inits = f.d.get("inits") or ()
        if not rs:
            return "never looks at"
        # overwritten before every use
        own = [(g, n) for g, n in rs if g is f]
        if own and len(own) == len(rs) and f.cfg and not f.ptype(p).rstrip().endswith(("&", "*")):
            live = False
            for g, n in own:
                ds = self.P.reaching(f, p["id"], n)
                if ds is None or not ds or any(d[0] is None for d in ds):
                    live = True
                    break
            if not live:
                return "overwrites before every use"
        if f.ptype(p).rstrip().endswith("&") and not f.ptype(p).startswith("const "):
            return None
        if not option(f.ptype(p)):
            return None
        return None if self.live(f, i) else "takes no part in the result from"

    def live(self, f, i):
        """the parameter can reach the result, a decision, something written or something outside the library"""
        key = (f.id, i)
        if not hasattr(self, "_live"):
            self._live = {}
        if key in self._live:
            return self._live[key]
        self._live[key] = True
        self._live[key] = r = self.live1(f, i)
        return r

    def live1(self, f, i):
        if f.d.get("body") is None or i >= len(f.params):
            return True
        p = f.params[i]
        s = self.F.summary(f)
        if s is None or any(a == ("p", i) for a, b in s):
            return True
        g = self.F.graph(f)
        seen = g.reach([("v", p["id"])])
        for h, n in g.calls:
            o = call_obj(h, n)
            if o is not None and ("e", h.id, o["i"]) in seen and not n.get("fconst"):
                return True
            for j, a in enumerate(call_args(h, n)):
                if ("e", h.id, a["i"]) not in seen:
                    continue
                tg = [t for t in self.P.targets(n) if t.d.get("body") is not None and t.kind != "lambda"]
                if not tg:
                    if o is None or not n.get("fconst"):
                        return True
                elif any(self.live(t, j) for t in tg):
                    return True
        for h, n in self.refs(f, p["id"]):
            pp = h.parent(n)
            while pp is not None:
                if pp["k"] in ("CXXThrowExpr", "CXXDeleteExpr", "CXXNewExpr"):
                    return True
                pp = h.parent(pp)
        return False

    # ------------------------------------------------------------ handed on unchanged
    def hand(self):
        c = self.c
        c.rule("R03.hand", "a call whose target has an option of the same name and type as the caller's gets the caller's value there", 60)
        c.rule("R03.pos", "an argument is handed on to the parameter it is named after", 300)
        for f in self.lib:
            if f.kind == "lambda":
                continue
            self.hand1(f)

    def family(self, f):
        """f and the lambdas written in it"""
        out, fs, seen = [], [f], set()
        while fs:
            h = fs.pop()
            if h.id in seen:
                continue
            seen.add(h.id)
            out.append(h)
            for n in h.nodes.values():
                if n["k"] == "LambdaExpr":
                    fs += self.P.lambdas(n)
        return out

    def hand1(self, f):
        c, P = self.c, self.P
        pn = {norm(p["n"]): p for p in f.params if p["n"]}
        if not pn:
            return
        g = None
        for h in self.family(f):
            for n in h.nodes.values():
                prs = None
                if n["k"] in CALLS:
                    tg = [t for t in P.targets(n) if t.kind != "lambda"]
                    if not tg or "/lanelet2_" not in tg[0].file:
                        continue
                    t = tg[0]
                    t = max(tg, key=lambda t: sum(1 for q in t.params if q["n"]))
                    prs = [(q["n"] or "", t.ptype(q), a) for q, a in zip(t.params, call_args(h, n))]
                    what = last(t.name)
                    if t.id != f.id:
                        for q, qt, a in prs:
                            p = pn.get(norm(q))
                            if p is None or len(q) < 3 or bare(f.ptype(p)) != bare(qt) or not option(qt) or \
                                    any(f.name.endswith(x) and p["n"] == y for x, y in OTHER) or "ErrorMessages" in qt or \
                                    re.search(r"\b(Id|long)$", bare(qt)) and norm(q) in ("id",):
                                continue
                            if g is None:
                                g = self.F.graph(f)
                            dep = ("e", h.id, a["i"]) in g.reach([("v", p["id"])])
                            if not dep and self.decided(f, h, n, p):
                                dep = True
                            c.ob("R03.hand", dep, h.loc(n), "hand %s.%s to %s" % (f.name, p["n"], t.name),
                                 "%s has an argument %s but calls %s with something else there" % (f.name, p["n"], what),
                                 sample="%s hands its %s on to %s" % (f.name, p["n"], t.name))
                elif n["k"] == "InitListExpr" and n.get("flds") and n["flds"][0].startswith("lanelet::"):
                    ch = n.get("c", ())
                    rec = (P.recbyname.get(n["flds"][0].rsplit("::", 1)[0]) or [None])[0]
                    ft = {}
                    if rec is not None:
                        ft = {last(x["n"]): rec["_types"][x["t"]] for x in rec["fields"]}
                    prs = [(last(q), ft.get(last(q), ""), a) for q, a in zip(n["flds"], ch)]
                    what = n["flds"][0].rsplit("::", 1)[0].split("::")[-1]
                if prs and len(prs) > 1:
                    self.crossed(f, h, n, prs, what)

    def decided(self, f, h, n, p):
        """the call only happens under a test of the option, so that its value is known there"""
        pp = h.parent(n)
        x = n
        while pp is not None:
            if pp["k"] in ("IfStmt", "ConditionalOperator", "SwitchStmt"):
                c0 = pp["c"][0] if pp["k"] == "ConditionalOperator" else None
                for y in ([c0] if c0 is not None else kids(pp)[:1]):
                    if y is not None and h.node(y) is not x and any((z.get("d") or {}).get("id") == p["id"] for z in wk(h, h.node(y))):
                        return True
            pp, x = h.parent(pp), pp
        return False

    def isparm(self, h, a):
        u = unwrap(h, a)
        while u is not None and u["k"] in CALLS and u.get("f") in ("std::move", "std::forward") or \
                u is not None and u["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and len(kids(u)) == 1:
            u = unwrap(h, call_args(h, u)[0] if u["k"] in CALLS and call_args(h, u) else kids(u)[0])
        d = (u or {}).get("d") or {}
        return d.get("id") if u is not None and u["k"] == "DeclRefExpr" else None

    def crossed(self, f, h, n, prs, what):
        c = self.c
        byid = {p["id"]: p for p in f.params}
        here = [byid.get(self.isparm(h, a)) if a is not None else None for q, t, a in prs]
        if not any(here) or "operator" in f.name.split("::")[-1]:
            return
        bad = None
        for x, p in enumerate(here):
            if p is None:
                continue
            q, tq, a = prs[x]
            sp = len(toks(p["n"]) & toks(q))
            for y, (q2, t2, a2) in enumerate(prs):
                if y == x or bare(t2) != bare(tq):
                    continue
                s2 = len(toks(p["n"]) & toks(q2))
                if not option(f.ptype(p)) and norm(p["n"]) != norm(q2) or toks(p["n"]) & {"errors", "errs", "error"}:
                    continue
                if norm(p["n"]) == norm(q):
                    continue
                if s2 > sp:
                    o = here[y]
                    so = len(toks(o["n"]) & toks(q2)) if o is not None else -1
                    if o is not p and so < s2:
                        bad = (p["n"], q, q2)
        c.ob("R03.pos", bad is None, h.loc(n), "pos %s -> %s" % (f.name, what),
             "%s hands its %s to the %s of %s" % (f.name, bad[0] if bad else "", bad[1] if bad else "", what))

    # ------------------------------------------------------------ settings gathered in a record
    RECORDS = {"PossiblePathsParams": "lanelet::routing::PossiblePathsParams", "ValidationConfig": "lanelet::validation::ValidationConfig"}

    def fields(self):
        c, P = self.c, self.P
        c.rule("R03.fields", "an operation looks at every setting of the record of settings it is given", 12)
        for f in self.lib:
            if f.kind == "lambda" or "(anon)" in f.name:
                continue
            for i, p in enumerate(f.params):
                for s, q in self.RECORDS.items():
                    if not bare(f.ptype(p)).endswith(s) or f.ptype(p).startswith(("%s &" % q)) or not p["n"]:
                        continue
                    if f.kind == "ctor" and f.cls == q or f.kind == "op":
                        continue
                    recs = P.recbyname.get(q)
                    if not recs:
                        continue
                    got = self.fieldsread(f, i)
                    if got is None:
                        continue
                    for x in recs[0]["fields"]:
                        if s == "ValidationConfig" and (not self.report(f) or last(x["n"]) in self.elsewhere(q, f)):
                            continue
                        c.ob("R03.fields", last(x["n"]) in got, f.loc(), "fields %s.%s" % (f.name, x["n"]),
                             "%s never looks at the setting %s" % (f.name, x["n"]), sample="%s reads %s" % (f.name, x["n"]))

    def elsewhere(self, q, f):
        """settings another overload of the operation looks at before it hands the rest on"""
        out = set()
        for g in self.lib:
            if g.name == f.name and g is not f:
                for i, p in enumerate(g.params):
                    if bare(g.ptype(p)) == q:
                        out |= self.fieldsread(g, i) or set()
        return out

    def report(self, f):
        return "validateMap" in f.name

    def fieldsread(self, f, i, seen=None):
        seen = seen if seen is not None else set()
        if (f.id, i) in seen:
            return set()
        seen.add((f.id, i))
        if f.d.get("body") is None or i >= len(f.params):
            return None
        p = f.params[i]
        out = set()
        for h, n in self.refs(f, p["id"]):
            pp = h.parent(n)
            x = n
            while pp is not None and pp["k"] in ("ParenExpr", "ImplicitCastExpr", "CXXStaticCastExpr", "MaterializeTemporaryExpr", "CXXConstructExpr") and \
                    not (pp["k"] == "MemberExpr"):
                if pp["k"] == "CXXConstructExpr" and len(call_args(h, pp)) != 1:
                    break
                pp, x = h.parent(pp), pp
            if pp is None:
                return None
            if pp["k"] == "MemberExpr":
                out.add((pp.get("m") or pp.get("n")).split("::")[-1])
                continue
            if pp["k"] in CALLS:
                tg = [t for t in self.P.targets(pp) if t.d.get("body") is not None and t.kind != "lambda"]
                js = [j for j, a in enumerate(call_args(h, pp)) if h.node(a) is x or unwrap(h, a) is unwrap(h, x)]
                if not tg or not js:
                    return None
                for t in tg:
                    for j in js:
                        r = self.fieldsread(t, j, seen)
                        if r is None:
                            return None
                        out |= r
                continue
            if pp["k"] == "LambdaExpr":
                continue
            return None
        return out

    # ------------------------------------------------------------ which limits apply
    def limits(self):
        """the workers that run for every combination of limits that are set get exactly the limits that are set"""
        c, P = self.c, self.P
        c.rule("R03.limits", "for every combination of limits and options that are set, the search that runs gets exactly those", 8)
        q = self.RECORDS["PossiblePathsParams"]
        for f in self.lib:
            if not f.cfg:
                continue
            for p in f.params:
                if bare(f.ptype(p)) != q:
                    continue
                self.limits1(f, p)

    def field(self, h, n, pid):
        """field of the settings record an expression names, through optional accessors and unchanged locals"""
        n = unwrap(h, n)
        d = 0
        while n is not None and d < 12:
            d += 1
            if n["k"] == "MemberExpr" and n.get("c"):
                b = unwrap(h, n["c"][0])
                if b is not None and (b.get("d") or {}).get("id") == pid:
                    return (n.get("m") or n.get("n")).split("::")[-1]
                return None
            if n["k"] in CALLS:
                o = call_obj(h, n)
                if o is None:
                    a = call_args(h, n)
                    o = a[0] if n["k"] in ("CXXConstructExpr", "CXXOperatorCallExpr", "CXXTemporaryObjectExpr") and a else None
                n = unwrap(h, o) if o is not None else None
                continue
            if n["k"] == "DeclRefExpr" and (n.get("d") or {}).get("k") == "Var":
                i = h.vardef(n["d"]["id"])
                if i is None or n["d"]["id"] in h.mods:
                    return None
                n = unwrap(h, i)
                continue
            return None
        return None

    def ev(self, h, n, pid, env):
        n = unwrap(h, n)
        if n is None:
            return None
        k = n["k"]
        if k == "UnaryOperator" and n.get("op") == "!":
            v = self.ev(h, n["c"][0], pid, env)
            return None if v is None else not v
        if k == "CXXOperatorCallExpr" and n.get("op") == "!":
            v = self.ev(h, n["c"][1], pid, env)
            return None if v is None else not v
        if k == "BinaryOperator" and n.get("op") in ("&&", "||", "==", "!="):
            a, b = (self.ev(h, x, pid, env) for x in n["c"][:2])
            if n["op"] == "&&":
                return False if a is False or b is False else True if a and b else None
            if n["op"] == "||":
                return True if a or b else False if a is False and b is False else None
            if a is None or b is None:
                return None
            return (a == b) == (n["op"] == "==")
        if k in ("CXXOperatorCallExpr",) and n.get("op") in ("==", "!="):
            a = n["c"][1:]
            fl = [self.field(h, x, pid) for x in a]
            none = [x for x in a if "none" in str(unwrap(h, x).get("d", {}).get("n", "")) or "none_t" in h.type(unwrap(h, x))]
            if none and any(fl):
                v = env.get([x for x in fl if x][0])
                return None if v is None else v == (n["op"] == "!=")
            return None
        if k == "CXXBoolLiteralExpr":
            return bool(n.get("v"))
        if k == "ConditionalOperator":
            v = self.ev(h, n["c"][0], pid, env)
            return None if v is None else self.ev(h, n["c"][1 if v else 2], pid, env)
        if k == "DeclRefExpr" and (n.get("d") or {}).get("k") == "Var":
            i = h.vardef(n["d"]["id"])
            if i is not None and n["d"]["id"] not in h.mods and "bool" in h.type(n):
                return self.ev(h, i, pid, env)
        fl = self.field(h, n, pid)
        if fl in env and not (k in ("CXXOperatorCallExpr",) and n.get("op") == "*"):
            return env[fl]
        return None

    def limits1(self, f, p):
        c, P = self.c, self.P
        LIM = ("routingCostLimit", "elementLimit")
        calls = []
        for n in f.nodes.values():
            if n["k"] not in CALLS:
                continue
            tg = [t for t in P.targets(n) if t.kind != "lambda" and "/lanelet2_routing/" in t.file]
            if not tg:
                continue
            used = {fl for a in call_args(f, n) for x in wk(f, a) for fl in [self.field(f, x, p["id"])] if fl in LIM}
            args = [a for a in call_args(f, n) if any((x.get("d") or {}).get("id") == p["id"] for x in [unwrap(f, a) or {}])]
            if used and not args and n["k"] == "CallExpr":
                calls.append((n, used))
        if not calls:
            return
        import itertools
        res = {}
        for v in itertools.product((False, True), repeat=3):
            env = dict(zip(LIM + ("includeShorterPaths",), v))
            if not env["routingCostLimit"] and not env["elementLimit"]:
                continue
            bl = self.blocks(f, p["id"], env)
            res[v] = [(n, u) for n, u in calls if (P.where(f, n) or (None,))[0] in bl]
            want = {x for x in LIM if env[x]}
            for n, u in res[v]:
                c.ob("R03.limits", u == want, f.loc(n), "limits %s %s" % (f.name, sorted(want)),
                     "with %s set the search that runs gets %s" % (" and ".join(sorted(want)), " and ".join(sorted(u)) or "nothing"))
            c.ob("R03.limits", len(res[v]) >= 1, f.loc(), "limits none %s %s" % (f.name, v), "no search runs when %s are set" % sorted(want))
        # the option for shorter paths is a template argument of the search: it varies with the option, in its sense
        for lims in ((False, True), (True, False), (True, True)):
            a = [n for n, u in res.get(lims + (False,), ())]
            b = [n for n, u in res.get(lims + (True,), ())]
            if len(a) != 1 or len(b) != 1 or a[0]["i"] == b[0]["i"]:
                if len(a) == 1 and len(b) == 1 and not any(self.field(f, x, p["id"]) == "includeShorterPaths" for y in call_args(f, a[0]) for x in wk(f, y)):
                    c.ob("R03.limits", False, f.loc(a[0]), "shorter %s %s" % (f.name, lims), "the same search runs whether or not shorter paths were asked for")
                continue
            ta, tb = a[0].get("fta") or [], b[0].get("fta") or []
            df = [(x, y) for x, y in zip(ta, tb) if x != y and {x, y} <= {"true", "false"}]
            if df:
                c.ob("R03.limits", df == [("false", "true")], f.loc(b[0]), "shorter %s %s" % (f.name, lims),
                     "the search that keeps shorter paths runs when they were not asked for")
            elif ta == tb and not self.runtime(f, p, a[0], b[0]):
                c.ob("R03.limits", False, f.loc(b[0]), "shorter %s %s" % (f.name, lims), "the same search runs whether or not shorter paths were asked for")

    def runtime(self, f, p, a, b):
        """the two calls differ in a constant argument"""
        xs = [const_int(f, x) for x in call_args(f, a)]
        ys = [const_int(f, x) for x in call_args(f, b)]
        return xs != ys

    def blocks(self, f, pid, env):
        B = f.cfg["blocks"]
        seen, st = {f.cfg["entry"]}, [f.cfg["entry"]]
        while st:
            b = st.pop()
            blk = B[b]
            v = None
            if len(blk["s"]) == 2 and "cond" in blk and blk.get("t") not in ("SwitchStmt", "CXXTryStmt"):
                cn = f.nodes.get(blk["cond"])
                if cn is not None:
                    v = self.ev(f, self.P._cond(f, blk, cn), pid, env)
            for si, s in enumerate(blk["s"]):
                if s is None or s in seen or (v is True and si == 1) or (v is False and si == 0):
                    continue
                seen.add(s)
                st.append(s)
        return seen
