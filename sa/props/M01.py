"""M01 Map matching variants agree and respect traffic rules.

The variants on constant and on mutable maps hand the same things to the same search; each match produced carries values
computed for its own lanelet (reaching definitions of the fields at the place it is stored); the orderings promised are
established after the last element is added; the traffic rule filter removes exactly what the rules reject; and the search
itself looks at everything within the distance, measures the element it reports and keeps it if and only if it is close
enough."""
import re
from ..facts import AnalysisBroken
from ..core import CALLS, call_args, call_obj, unwrap, walk, root_var
from ..feeds import Feeds, last, rets
from ..paths import escape, loops, loop_head, loop_body_entry, throws
from .V02 import wk

MATCH = re.compile(r"\b(Const)?LaneletMatch(Probabilistic)?\b")


def run(c):
    P = c.program("core", "matching", "python", "wit_match")
    X = Run(c, P)
    X.variants()
    X.objects()
    X.produce()
    X.order()
    X.filters()
    X.close()
    X.search()
    X.maha()


class Run:
    def __init__(self, c, P):
        self.c, self.P, self.F = c, P, Feeds(P)
        self.lib = [f for f in P.lib() if f.cfg]
        self.mine = [f for f in self.lib if "/lanelet2_matching/" in f.file]
        if len(self.mine) < 8:
            raise AnalysisBroken("the matching package vanished")
        self.pub = [f for f in self.mine if f.kind == "func" and re.match(r"lanelet::matching::get\w+Matches$", f.name)]
        if len(self.pub) < 4:
            raise AnalysisBroken("the matching functions vanished")

    def calls(self, f, *names):
        for n in f.nodes.values():
            if n["k"] in CALLS and last(n.get("f", "")) in names:
                yield n

    def all_calls(self, f, *names):
        """the calls a function makes, in itself or helpers of its package, as (function, call, env)"""
        for x in self.F.feeds(f, lambda g, n: last(n.get("f", "")) in names):
            yield x

    # -------------------------------------------------- what the variants hand to the search
    def variants(self):
        c = self.c
        c.rule("M01.search", "each variant searches the lanelets of its map once, with the object and the distance it was given", 4)
        for f in self.pub:
            xs = [x for x in self.all_calls(f, "findWithin")]
            ok = bool(xs)
            got = []
            for x in xs:
                a = [self.F.args(x, i) for i in range(3)]
                got.append(a)
                ok = ok and a[0] == {"P0.laneletLayer"} and a[1] == {"P1"} and a[2] == {"P2"}
            for x in xs:
                g, n = x["f"], x["call"]
                u = unwrap(g, call_args(g, n)[2])
                if u["k"] in ("BinaryOperator", "FloatingLiteral", "IntegerLiteral", "UnaryOperator"):
                    c.ob("M01.search", False, g.loc(n), f"{f.short}({f.ptype(f.params[0])}) distance", f"{f.name} does not search with the distance it was given")
            if any("?" in t for a in got for s in a for t in s):
                c.note(f"{f.name}: what is searched could not be determined")
                continue
            c.ob("M01.search", ok, f.loc(), f"{f.short}({f.ptype(f.params[0])})",
                 f"{f.name} does not search the lanelets of its map with the object and distance given ({[sorted(map(sorted, a)) for a in got]})")

    def objects(self):
        c = self.c
        c.rule("M01.object", "the hull of the object is searched with when it has one, its position otherwise", 2)
        fs = [f for f in self.mine if f.name == "lanelet::matching::utils::findWithin"]
        if not fs:
            raise AnalysisBroken("matching::utils::findWithin vanished")
        for f in fs:
            seen = set()
            for n in f.nodes.values():
                if n["k"] not in CALLS or last(n.get("f", "")) != "findWithin2d":
                    continue
                a = call_args(f, n)
                t = [self.F.term(f, x, {}) for x in a[:3]]
                key = f"findWithin({f.ptype(f.params[0])})"
                c.ob("M01.object", t[0] == {"P0"} and t[2] == {"P2"}, f.loc(n), key + " arguments",
                     f"the search is not made in the layer given with the distance given ({t[0]}, {t[2]})")
                hull = any(".absoluteHull" in x for x in t[1])
                pos = any(".pose" in x for x in t[1])
                st = self.P.state_at(f, n) or set()
                emp = {v for k, e, v in st if k == "empty" and e.endswith(".absoluteHull")}
                if hull and pos:
                    # both flow into one call: decided where the value is chosen
                    seen |= {"hull", "pose"}
                    continue
                if hull:
                    seen.add("hull")
                    c.ob("M01.object", emp == {False}, f.loc(n), key + " hull", "an object without a hull is searched with its hull")
                elif pos:
                    seen.add("pose")
                    c.ob("M01.object", emp == {True}, f.loc(n), key + " position", "an object with a hull is searched with its position only")
                else:
                    c.ob("M01.object", False, f.loc(n), key + " geometry", f"searched with {t[1]}, which is neither hull nor position of the object")
            c.ob("M01.object", seen == {"hull", "pose"}, f.loc(), f"findWithin({f.ptype(f.params[0])}) both", "not both hull and position are used")

    # -------------------------------------------------- the matches
    def last_defs(self, f, vid, field, at):
        """values (node, value) the field of a local may have at a node; value None: as constructed / unknown"""
        w = self.P.where(f, at)
        if w is None:
            return None
        B = f.cfg["blocks"]
        res, seen = [], set()

        def scan(b, hi):
            for e in reversed(B[b]["e"][:hi]):
                if not isinstance(e, int):
                    continue
                n = f.nodes.get(e)
                if n is None:
                    continue
                lhs = None
                if n["k"] == "BinaryOperator" and n.get("op") == "=":
                    lhs, rhs = n["c"][0], n["c"][1]
                elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["c"]) == 3:
                    lhs, rhs = n["c"][1], n["c"][2]
                if lhs is not None:
                    m = unwrap(f, f.node(lhs))
                    if m["k"] == "MemberExpr" and last(m["m"]) == field and m.get("c") and root_var(f, m["c"][0]) == vid:
                        return n, f.node(rhs)
                    if m["k"] == "DeclRefExpr" and m.get("d", {}).get("id") == vid:
                        return n, None
                if n["k"] == "DeclStmt" and any(v["id"] == vid for v in n["vars"]):
                    v = [v for v in n["vars"] if v["id"] == vid][0]
                    return n, ("init", v.get("init"))
            return None
        st = [(w[0], w[1])]
        preds = f.cfg["preds"]
        while st:
            b, hi = st.pop()
            r = scan(b, hi)
            if r is not None:
                res.append(r)
                continue
            ps = preds.get(b, ())
            for p, _ in ps:
                if p not in seen:
                    seen.add(p)
                    st.append((p, len(B[p]["e"])))
        return res

    def fields_of(self, t):
        """flattened fields of a match type, in order of construction"""
        m = MATCH.search(t)
        if not m:
            return []
        return ["lanelet", "distance"] + (["mahalanobisDistSq"] if m.group(2) else [])

    def value(self, f, n, env, d=0):
        """what an expression denotes: set of (source, orientation parity), or ('maha', lanelet values, object) ..."""
        n = unwrap(f, n) if n is not None else None
        if n is None or d > 20:
            return {("?", 0)}
        k = n["k"]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "InitListExpr", "CXXStaticCastExpr", "MaterializeTemporaryExpr"):
            a = [x for x in n.get("c", ()) if x is not None and f.node(x)["k"] != "CXXDefaultArgExpr"]
            if len(a) >= 1:
                return self.value(f, a[0], env, d + 1)
            return {("new", 0)}
        if k == "ConditionalOperator":
            return self.value(f, n["c"][1], env, d + 1) | self.value(f, n["c"][2], env, d + 1)
        if k in CALLS:
            nm = last(n.get("f", ""))
            o, a = call_obj(f, n), call_args(f, n)
            if nm == "invert" and o is not None:
                return {(s, (p + 1) % 2 if p in (0, 1) else p) for s, p in self.value(f, o, env, d + 1)}
            if nm == "getMahalanobisDistSq" and len(a) == 2:
                return {(("maha", frozenset(self.value(f, a[0], env, d + 1)), frozenset(self.F.term(f, a[1], self.fenv(env)))), 0)}
            if nm in ("move", "forward", "as_const") and a:
                return self.value(f, a[0], env, d + 1)
            if n.get("op") in ("*", "->"):
                return self.value(f, o if o is not None else a[0], env, d + 1)
            if nm == "get" and a and n.get("fta"):
                return {(s + "." + {"0": "first", "1": "second"}.get(str(n["fta"][0]), "?"), p) if isinstance(s, str) else ("?", 0)
                        for s, p in self.value(f, a[0], env, d + 1)}
            for g in self.P.targets(n):
                if g.cfg and "/repo/" in g.file + "/repo/":
                    r = set()
                    for x in rets(self.P, g):
                        e = {p["id"]: (f, y, env) for p, y in zip(g.params, a)}
                        r |= self.value(g, x, e, d + 1)
                    if r:
                        return r
            return {("?" + nm, 0)}
        if k == "MemberExpr":
            m = last(n["m"])
            b = unwrap(f, f.node(n["c"][0])) if n.get("c") else None
            if b is not None and b["k"] == "DeclRefExpr" and MATCH.search(f.type(b)) and m in ("lanelet", "distance", "mahalanobisDistSq"):
                vid = b["d"]["id"]
                if vid in env:
                    g, y, e = env[vid]
                    return self.field(g, y, e, m, y, d + 1)
                if b["d"]["k"] == "Var":
                    return self.field(f, b, env, m, n, d + 1)
            return {((s + "." + m) if isinstance(s, str) else "?", p) for s, p in self.value(f, b, env, d + 1)} if b is not None else {("?", 0)}
        if k == "DeclRefExpr":
            dd = n.get("d", {})
            if dd.get("k") in ("Var", "Parm"):
                vid = dd["id"]
                if vid in env:
                    g, y, e = env[vid]
                    return self.value(g, y, e, d + 1)
                v = f.vardef(vid)
                i = unwrap(f, v) if isinstance(v, dict) else None
                if i is not None and not (i["k"] == "CXXOperatorCallExpr" and i.get("op") == "*" or i["k"] == "UnaryOperator" and i.get("op") == "*"):
                    return self.value(f, i, env, d + 1)
                return {("v:" + vid, 0)}
        return {("?" + k, 0)}

    def fenv(self, env):
        return env

    def field(self, f, n, env, name, at, d=0):
        """values of a field of a match expression at a node"""
        n = unwrap(f, n)
        if d > 20:
            return {("?", 0)}
        k = n["k"]
        if k == "DeclRefExpr" and n["d"].get("k") in ("Var", "Parm"):
            vid = n["d"]["id"]
            if vid in env:
                g, y, e = env[vid]
                return self.field(g, y, e, name, y, d + 1)
            ds = self.last_defs(f, vid, name, at)
            if not ds:
                return {("?", 0)}
            r = set()
            for node, v in ds:
                if v is None:
                    r.add(("?", 0))
                elif isinstance(v, tuple):
                    i = v[1]
                    i = f.node(i) if i is not None and not isinstance(i, dict) else i
                    if i is None:
                        r.add(("default", 0))
                    else:
                        r |= self.field(f, i, env, name, node, d + 1)
                else:
                    r |= self.value(f, v, env, d + 1)
            return r
        if k in CALLS and last(n.get("f", "")) in ("move", "forward"):
            return self.field(f, call_args(f, n)[0], env, name, at, d + 1)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            a = [f.node(x) for x in n.get("c", ()) if x is not None]
            if not a:
                return {("default", 0)}
            if len(a) == 1 and MATCH.search(f.type(a[0])):
                return self.field(f, a[0], env, name, at, d + 1)
            fl = []
            for x in a:
                if MATCH.search(f.type(x)) and unwrap(f, x)["k"] == "InitListExpr":
                    fl += [f.node(y) for y in unwrap(f, x)["c"]]
                else:
                    fl.append(x)
            order = self.fields_of(f.type(n))
            if name in order and order.index(name) < len(fl):
                x = fl[order.index(name)]
                return {("default", 0)} if x["k"] in ("CXXDefaultInitExpr", "ImplicitValueInitExpr") else self.value(f, x, env, d + 1)
            return {("default", 0)}
        if k in CALLS:
            r = set()
            for g in self.P.targets(n):
                if g.cfg:
                    for m in g.all("ReturnStmt"):
                        if m.get("c"):
                            e = {p["id"]: (f, y, env) for p, y in zip(g.params, call_args(f, n))}
                            r |= self.field(g, m["c"][0], e, name, m, d + 1)
            return r or {("?", 0)}
        return {("?", 0)}

    def produce(self):
        c = self.c
        c.rule("M01.own", "a match carries the lanelet found and the distance found for it", 4)
        c.rule("M01.maha", "the Mahalanobis distance of a match is computed for the lanelet in the orientation stored, with the object given", 4)
        c.rule("M01.both", "every lanelet found yields a match in each orientation", 4)
        prod = {}
        for f in self.mine:
            for n in f.nodes.values():
                if n["k"] not in CALLS or last(n.get("f", "")) not in ("push_back", "emplace_back"):
                    continue
                o, a = call_obj(f, n), call_args(f, n)
                if o is None or not MATCH.search(f.type(unwrap(f, o))) or "vector" not in f.type(unwrap(f, o)):
                    continue
                if len(a) != 1:
                    c.note(f"{f.loc(n)}: match constructed in place; not analysed")
                    continue
                prod.setdefault(f.id, (f, []))[1].append((n, a[0]))
        if not prod:
            raise AnalysisBroken("no place stores a match any more")
        for f, sites in prod.values():
            tname = MATCH.search(f.type(unwrap(f, call_obj(f, sites[0][0])))).group(0)
            orient = set()
            unknown = False
            for n, a in sites:
                # a filter that copies matches over is judged by its own rule
                u = unwrap(f, a)
                ll = self.field(f, a, {}, "lanelet", n)
                ds = self.field(f, a, {}, "distance", n)
                mh = self.field(f, a, {}, "mahalanobisDistSq", n) if "Probabilistic" in tname else None
                if all(isinstance(s, str) and s.startswith(("v:", "?", "default")) and not s.endswith(".second") for s, _ in ll) and not any(s == "default" for s, _ in ll):
                    c.note(f"{f.loc(n)}: origin of the stored match not determined")
                    unknown = True
                    continue
                src = {s[:-len(".second")] if isinstance(s, str) and s.endswith(".second") else s for s, _ in ll}
                c.ob("M01.own", len(src) == 1 and all(isinstance(s, str) and s.endswith(".second") for s, _ in ll), f.loc(n), f"{f.short}<{tname}> lanelet",
                     f"the lanelet of a match is not the lanelet found: {ll}")
                dsrc = {s for s, _ in ds}
                c.ob("M01.own", dsrc == {x + ".first" for x in src if isinstance(x, str)}, f.loc(n), f"{f.short}<{tname}> distance",
                     f"the distance of a match is not the one found for its lanelet: {dsrc}")
                orient |= {p for _, p in ll}
                if mh is not None:
                    good = all(isinstance(s, tuple) and s[0] == "maha" and set(s[1]) == set(ll) and all(re.match(r"P\d+$", x) for x in s[2]) for s, _ in mh)
                    c.ob("M01.maha", good, f.loc(n), f"{f.short}<{tname}> mahalanobis",
                         f"the Mahalanobis distance stored belongs to {[s[1] if isinstance(s, tuple) else s for s, _ in mh]}, the match to {ll}")
            if unknown:
                continue
            c.ob("M01.both", orient == {0, 1}, f.loc(), f"{f.short}<{tname}> orientations", f"only orientation(s) {sorted(orient)} of a lanelet found are matched")
            # nothing is left out: every pass of the loop stores all of them
            for n, a in sites:
                lp = [l for l in loops(f) if within(f, l, n)]
                for l in lp[:1]:
                    b, h = loop_body_entry(self.P, f, l), loop_head(self.P, f, l)
                    if b is None:
                        continue
                    p = escape(self.P, f, b, lambda m, n=n: m is n, goals=[h])
                    inner = self.skipped(f, b, n, h)
                    c.ob("M01.both", not inner, f.loc(n), f"{f.short}<{tname}> every", "a lanelet found can be left out of the matches")

    def skipped(self, f, b0, n, head):
        """path through the loop body that does not pass node n"""
        w = self.P.where(f, n)
        B = f.cfg["blocks"]
        if w is None:
            return False
        seen, st = set(), [b0]
        while st:
            b = st.pop()
            if b in seen or b == w[0]:
                continue
            seen.add(b)
            if b == head or b == f.cfg["exit"]:
                return True
            if throws(f, B[b]):
                continue
            st += [s for s in B[b]["s"] if s is not None]
        return False

    # -------------------------------------------------- order
    def comparator(self, f, n, a):
        """member chains the two parameters of a comparison are read through, ('first-less', chain) or None"""
        gs = [g for g in self.P.lambdas(unwrap(f, a))] if unwrap(f, a).get("lam") else []
        if not gs:
            u = unwrap(f, a)
            for x in wk(f, u):
                gs += list(self.P.lambdas(x)) if x.get("lam") else []
                if x["k"] == "DeclRefExpr":
                    d = x["d"]
                    if d.get("k") == "Function" and d["id"] in self.P.funcs:
                        gs.append(self.P.funcs[d["id"]])
                    elif d.get("k") == "Var" and isinstance(f.vardef(d["id"]), dict):
                        for y in wk(f, f.vardef(d["id"])):
                            gs += list(self.P.lambdas(y)) if y.get("lam") else []
        if len(gs) != 1:
            return None
        g = gs[0]
        r = rets(self.P, g)
        if len(r) != 1 or len(g.params) != 2:
            return None
        e = unwrap(g, r[0])
        op = e.get("op")
        if e["k"] not in ("BinaryOperator", "CXXOperatorCallExpr") or op not in ("<", ">", "<=", ">="):
            return None
        x = [self.F.term(g, y, {}) for y in (e["c"][-2:])]
        if any(len(t) != 1 for t in x):
            return None
        l, r = next(iter(x[0])), next(iter(x[1]))
        if op in (">", ">="):
            l, r = r, l
        ml, mr = re.match(r"P(\d)((?:\.\w+)*)$", l), re.match(r"P(\d)((?:\.\w+)*)$", r)
        if not ml or not mr or ml.group(1) == mr.group(1):
            return None
        return ml.group(1) == "0", ml.group(2), mr.group(2), op in ("<=", ">=")

    def sorts(self, f):
        for n in f.nodes.values():
            if n["k"] in CALLS and re.match(r"std::(stable_)?sort$", n.get("f", "")):
                a = call_args(f, n)
                if len(a) == 3:
                    yield n, a

    def order(self):
        c = self.c
        c.rule("M01.order", "the matches of a variant are sorted by the distance it promises, ascending, after the last one is stored", 4)
        for f in self.pub:
            want = ".mahalanobisDistSq" if "Probabilistic" in f.short else ".distance"
            hit = False
            for gid in self.P.reach([f]):
                g = self.P.funcs.get(gid)
                if g is None or not g.cfg or "/lanelet2_matching/" not in g.file:
                    continue
                for n, a in self.sorts(g):
                    b = unwrap(g, a[0])
                    o = call_obj(g, b) if b["k"] in CALLS else None
                    if o is None or not MATCH.search(g.type(unwrap(g, o))):
                        continue
                    e = unwrap(g, a[1])
                    whole = last(b.get("f", "")) in ("begin",) and last(e.get("f", "")) in ("end",) and \
                        self.P.key(g, o) == self.P.key(g, call_obj(g, e))
                    k = self.comparator(g, n, a[2])
                    if k is None:
                        c.note(f"{g.loc(n)}: comparison not understood")
                        hit = None
                        continue
                    first, l, r, eq = k
                    hit = True
                    c.ob("M01.order", first and l == want and r == want and not eq and whole, g.loc(n), f"{f.short} sort",
                         f"{f.short} promises ascending order by {want[1:]}, the matches are sorted {'ascending' if first else 'descending'} by {l[1:]}/{r[1:]}" +
                         ("" if whole else ", not all of them"))
                    vid = root_var(g, o)
                    after = [m for m in g.nodes.values() if m["k"] in CALLS and last(m.get("f", "")) in ("push_back", "emplace_back", "insert") and
                             call_obj(g, m) is not None and root_var(g, call_obj(g, m)) == vid]
                    late = [m for m in after if escape(self.P, g, m, lambda y, n=n: y is n) is not None]
                    c.ob("M01.order", not late, g.loc(n), f"{f.short} sorted last", "matches are returned that were stored after sorting or without it")
            if hit is False:
                c.ob("M01.order", False, f.loc(), f"{f.short} sort", f"the matches of {f.short} are not sorted any more")

    # -------------------------------------------------- the filter
    def filters(self):
        c = self.c
        c.rule("M01.filter", "the traffic rule filter keeps a match if and only if the lanelet of the match can be passed", 2)
        fs = [f for f in self.lib if f.name == "lanelet::matching::removeNonRuleCompliantMatches"]
        if not fs:
            raise AnalysisBroken("removeNonRuleCompliantMatches vanished")
        for f in fs:
            decided = False
            key = f"removeNonRuleCompliantMatches<{(MATCH.search(f.ptype(f.params[0])) or [''])[0]}>"
            for n in self.calls(f, "remove_if", "copy_if", "remove_copy_if", "partition", "stable_partition", "find_if"):
                a = call_args(f, n)
                nm = last(n["f"])
                gs = [g for g in self.P.lambdas(unwrap(f, a[-1]))]
                if not gs:
                    gs = [g for x in wk(f, unwrap(f, a[-1])) if x.get("lam") for g in self.P.lambdas(x)]
                if not gs and unwrap(f, a[-1])["k"] == "DeclRefExpr":
                    v = f.vardef(unwrap(f, a[-1])["d"].get("id"))
                    gs = [g for x in (wk(f, v) if isinstance(v, dict) else ()) if x.get("lam") for g in self.P.lambdas(x)]
                if len(gs) != 1 or nm == "find_if":
                    continue
                decided = True
                pol = self.polarity(gs[0])
                if pol is None:
                    c.note(f"{f.loc(n)}: predicate not understood")
                    continue
                keep = nm in ("copy_if", "partition", "stable_partition")
                c.ob("M01.filter", pol == (keep,), f.loc(n), key + " predicate",
                     f"{nm} with a predicate that is {'true' if pol and pol[0] else 'false' if pol else 'not decided'} for passable matches" if pol else
                     "the predicate does not ask whether the lanelet of the match can be passed")
                bad = None
                if nm in ("remove_if", "copy_if", "remove_copy_if"):
                    b, e = unwrap(f, a[0]), unwrap(f, a[1])
                    if not (last(b.get("f", "")) in ("begin", "cbegin") and last(e.get("f", "")) in ("end", "cend")):
                        bad = "not every match is looked at"
                if nm == "remove_if":
                    er = [m for m in self.calls(f, "erase") if within(f, m, n) or any(x["k"] == "DeclRefExpr" and isinstance(f.vardef(x["d"].get("id")), dict) and
                                                                                    within(f, f.vardef(x["d"]["id"]), n) for x in wk(f, m) if x.get("d", {}).get("k") == "Var")]
                    if not er:
                        bad = "the rejected matches are not erased"
                    elif len(call_args(f, er[0])) < 2:
                        bad = "only one of the rejected matches is erased"
                c.ob("M01.filter", bad is None, f.loc(n), key + " range", bad or "")
            if decided:
                continue
            # a loop that stores what may stay
            for n in self.calls(f, "push_back", "emplace_back"):
                st = self.P.state_at(f, n) or set()
                v = {v for k, e, v in st if k == "true" and re.search(r"canPass\(", e) and ".lanelet" in e}
                decided = True
                c.ob("M01.filter", v == {True}, f.loc(n), key + " loop", "a match is kept without its lanelet being passable")
                for l in [l for l in loops(f) if within(f, l, n)][:1]:
                    b, h = loop_body_entry(self.P, f, l), loop_head(self.P, f, l)
                    pr = lambda fs_: any(k == "true" and "canPass(" in e and x is False for k, e, x in fs_)
                    if b is not None:
                        c.ob("M01.filter", escape(self.P, f, b, lambda m, n=n: m is n, prune=pr, goals=[h]) is None, f.loc(n), key + " loop all",
                             "a match whose lanelet can be passed is dropped")
            if not decided:
                c.note(f"{f.loc()}: how {key} filters was not understood")

    def polarity(self, g):
        """(truth of the predicate for a match that can be passed,), () if it is not exactly that, None if unknown"""
        r = rets(self.P, g)
        if len(r) != 1:
            return None
        atoms = []

        def atom(x):
            k = (g.id, self.P.key(g, x))
            if k not in atoms:
                atoms.append(k)
            return lambda env: env[k]

        main = []

        def build(g, x):
            x = unwrap(g, x)
            if x["k"] == "UnaryOperator" and x.get("op") == "!":
                a = build(g, x["c"][0])
                return lambda e: not a(e)
            if x["k"] == "BinaryOperator" and x.get("op") in ("&&", "||"):
                a, b = build(g, x["c"][0]), build(g, x["c"][1])
                return (lambda e: a(e) and b(e)) if x["op"] == "&&" else (lambda e: a(e) or b(e))
            if x["k"] == "CXXBoolLiteralExpr":
                v = str(x.get("ev", x.get("v"))) in ("1", "true", "True")
                return lambda e: v
            if x["k"] == "BinaryOperator" and x.get("op") in ("==", "!="):
                a, b = build(g, x["c"][0]), build(g, x["c"][1])
                return (lambda e: a(e) == b(e)) if x["op"] == "==" else (lambda e: a(e) != b(e))
            if x["k"] == "ConditionalOperator":
                a, b, d = (build(g, y) for y in x["c"])
                return lambda e: b(e) if a(e) else d(e)
            if x["k"] == "DeclRefExpr" and isinstance(g.vardef(x["d"].get("id")), dict):
                return build(g, g.vardef(x["d"]["id"]))
            if x["k"] in CALLS and last(x.get("f", "")) != "canPass":
                ts = [h for h in self.P.targets(x) if h.cfg and "/lanelet2_matching/" in h.file]
                if len(ts) == 1 and len(rets(self.P, ts[0])) == 1:
                    return build(ts[0], rets(self.P, ts[0])[0])
            k = (g.id, self.P.key(g, x))
            if x["k"] in CALLS and last(x.get("f", "")) == "canPass":
                a = call_args(g, x)
                t = self.F.term(g, a[0], {}) if a else {"?"}
                if len(a) == 1 and t and all(re.search(r"\.lanelet$|^P\d$", y) for y in t) and \
                        not any(z["k"] in CALLS and last(z.get("f", "")) == "invert" for z in wk(g, a[0])):
                    main.append(k)
            if k not in atoms:
                atoms.append(k)
            return lambda e: e[k]
        fn = build(g, r[0])
        if not main:
            return () if any("canPass" in k[1] for k in atoms) else None
        if len(set(main)) != 1 or len(atoms) > 6:
            return None
        m = main[0]
        out = set()
        for bits in range(2 ** len(atoms)):
            e = {k: bool(bits >> i & 1) for i, k in enumerate(atoms)}
            out.add(fn(e) == e[m])
        return (out.pop(),) if len(out) == 1 else ()

    def close(self):
        c = self.c
        c.rule("M01.close", "an object is close to a layer if and only if the search finds something; within means at distance zero", 2)
        for f in self.mine:
            if f.name == "lanelet::matching::isCloseTo":
                for x in rets(self.P, f):
                    u = unwrap(f, x)
                    neg = False
                    while u["k"] == "UnaryOperator" and u.get("op") == "!":
                        neg, u = not neg, unwrap(f, u["c"][0])
                    t = self.F.term(f, x, {})
                    if u["k"] in CALLS and last(u.get("f", "")) == "empty":
                        c.ob("M01.close", neg, f.loc(), "isCloseTo", "isCloseTo is true when nothing is found")
                for n in self.calls(f, "findWithin"):
                    a = [self.F.term(f, y, {}) for y in call_args(f, n)[:3]]
                    c.ob("M01.close", a == [{"P0"}, {"P1"}, {"P2"}], f.loc(n), "isCloseTo search", f"isCloseTo searches with {a}")
            if f.name == "lanelet::matching::isWithin":
                for n in self.calls(f, "isCloseTo", "findWithin"):
                    a = call_args(f, n)
                    z = unwrap(f, a[2])
                    if z["k"] in ("FloatingLiteral", "IntegerLiteral"):
                        c.ob("M01.close", str(z.get("v", z.get("ev"))) in ("0", "0.0", "0.000000e+00", "0.") or float(z.get("v", z.get("ev", 1)) or 0) == 0,
                             f.loc(n), "isWithin", "isWithin accepts objects that are only close")

    # -------------------------------------------------- the search in the map
    def search(self):
        c = self.c
        c.rule("M01.box", "the search box is that of the geometry given, widened by the distance whenever it is positive", 2)
        c.rule("M01.measure", "an element is reported with the distance between the geometry given and itself, and if and only if it is at most the distance given", 2)
        c.rule("M01.near", "the elements found are sorted by distance, ascending, after the last one is stored", 2)
        fs = [f for f in self.lib if re.match(r"lanelet::geometry::findWithin[23]d$", f.name)]
        if not fs:
            raise AnalysisBroken("findWithin2d vanished")
        dim = lambda f: f.name[-2]
        for f in fs:
            key = f"findWithin{dim(f)}d"
            D = {p["id"]: i for i, p in enumerate(f.params)}
            sea = [n for n in self.calls(f, "search")]
            for n in sea:
                t = self.F.term(f, call_args(f, n)[0], {})
                if not all(x.startswith("P") or "?" not in x for x in t):
                    continue
                if any(x.startswith("new:") for x in t):
                    # built by a helper: from what it is given
                    u = unwrap(f, call_args(f, n)[0])
                    v = f.vardef(u["d"].get("id")) if u["k"] == "DeclRefExpr" else u
                    ps = {D[x["d"]["id"]] for x in (wk(f, v) if isinstance(v, dict) else ()) if x["k"] == "DeclRefExpr" and x.get("d", {}).get("id") in D}
                    t = {f"P{i}" for i in ps} or t
                    if not ps:
                        c.note(f"{f.loc(n)}: origin of the search box not determined")
                        continue
                c.ob("M01.box", all(re.match(r"P1\b", x) or "(P1" in x for x in t), f.loc(n), key + " box", f"the box searched is made from {t}")
                o = call_obj(f, n)
                c.ob("M01.box", self.F.term(f, o, {}) == {"P0"}, f.loc(n), key + " layer", "another layer is searched")
                buf = [m for m in self.calls(f, "buffer")]
                if buf:
                    for m in buf:
                        a = call_args(f, m)
                        d = self.F.term(f, a[2], {}) if len(a) > 2 else {"?"}
                        u = unwrap(f, a[2]) if len(a) > 2 else None
                        plain = u is not None and u["k"] == "DeclRefExpr"
                        if plain:
                            c.ob("M01.box", d == {"P2"}, f.loc(m), key + " width", f"the box is widened by {d}")
                        elif u is not None and u["k"] in ("BinaryOperator", "FloatingLiteral", "IntegerLiteral", "UnaryOperator"):
                            names = {x["d"]["id"] for x in wk(f, u) if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") == "Parm"}
                            shrink = u["k"] == "UnaryOperator" or u.get("op") in ("/", "-")
                            lit = [float(x.get("v", x.get("ev", 1)) or 0) for x in wk(f, u) if x["k"] in ("FloatingLiteral", "IntegerLiteral")]
                            shrink = shrink or u.get("op") == "*" and any(v < 1 for v in lit) or not any(D.get(x) == 2 for x in names)
                            c.ob("M01.box", not shrink, f.loc(m), key + " width", "the box is widened by less than the distance")
                    # the search is only reached without widening when the distance is not positive
                    pr = lambda fs_: any(k == "cmp" and (re.match(r"(v:maxDist\S*|.*)>=?#0$", e) and v is False or re.match(r"#0<=?.*$", e) and v is False or
                                                         re.search(r"<=?#0$", e) and v is True) for k, e, v in fs_)
                    p = escape(self.P, f, None, lambda y: any(y is m for m in buf), prune=pr, goals=[self.P.where(f, n)[0]])
                    same = self.P.where(f, n)[0] == f.cfg["entry"]
                    c.ob("M01.box", p is None, f.loc(n), key + " widened", "the box is searched without being widened although the distance is positive")
                else:
                    used = any(D.get(x.get("d", {}).get("id")) == 2 for x in wk(f, call_args(f, n)[0]) if x["k"] == "DeclRefExpr")
                    if not used and not any(self.P.targets(m) and last(m.get("f", "")) not in ("boundingBox2d", "to2D", "search") and
                                            any("P2" in t for y in call_args(f, m) for t in self.F.term(f, y, {})) for m in f.nodes.values() if m["k"] in CALLS):
                        c.ob("M01.box", False, f.loc(n), key + " widened", "the box is not widened by the distance")
            for n in self.calls(f, "push_back", "emplace_back"):
                o = call_obj(f, n)
                if "pair" not in f.type(unwrap(f, o)):
                    continue
                a = [unwrap(f, x) for x in call_args(f, n)]
                if len(a) == 1:
                    u = a[0]
                    while u["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and \
                            len([x for x in u["c"] if x is not None]) == 1:
                        u = unwrap(f, u["c"][0])
                    a = [unwrap(f, x) for x in (call_args(f, u) if u["k"] in CALLS else u.get("c", ()))]
                if len(a) != 2:
                    c.note(f"{f.loc(n)}: pair not understood")
                    continue
                dk, ek = self.P.key(f, a[0]), self.P.key(f, a[1])
                m = re.match(r"(?:\w+::)*distance%sd\((.*)\)$" % dim(f), dk)
                if not m:
                    m2 = re.match(r"(?:\w+::)*distance[23]d\((.*)\)$", dk)
                    if m2:
                        c.ob("M01.measure", False, f.loc(n), key + " value", f"the distance reported is {dk}")
                    else:
                        c.note(f"{f.loc(n)}: distance not understood ({dk})")
                    continue
                args = m.group(1)
                gk = "v:" + f.params[1]["id"] if False else None
                parts = split(args)
                gname = f.params[1]["n"]
                own = len(parts) == 2 and (parts[1] == ek and re.match(r"v:%s\b" % re.escape(gname), parts[0]) or
                                           parts[0] == ek and re.match(r"v:%s\b" % re.escape(gname), parts[1]))
                c.ob("M01.measure", bool(own), f.loc(n), key + " value", f"the distance reported ({dk}) is not the one between the geometry and the element reported ({ek})")
                st = self.P.state_at(f, n) or set()
                dist = f.params[2]["n"]
                le = any(k == "cmp" and v and (re.match(re.escape(dk) + r"<=v:%s\b" % dist, e) or re.match(r"v:%s\S*>=" % dist + re.escape(dk) + "$", e)) or
                         k == "cmp" and not v and (re.match(re.escape(dk) + r">v:%s\b" % dist, e) or re.match(r"v:%s\S*<" % dist + re.escape(dk) + "$", e)) for k, e, v in st)
                c.ob("M01.measure", le, f.loc(n), key + " bound", "an element is reported although its distance was not compared with the distance given (at most)")
                for l in [l for l in loops(f) if within(f, l, n)][:1]:
                    b, h = loop_body_entry(self.P, f, l), loop_head(self.P, f, l)
                    far = lambda fs_: any(k == "cmp" and dk in e and (v is False and re.search(r"<=v:|>=", e) or v is True and (e.startswith(dk + ">v:") or e.endswith("<" + dk)))
                                          and not e.startswith(dk + "<v:") and not re.search(r">=?$", e) for k, e, v in fs_)
                    if b is not None:
                        c.ob("M01.measure", escape(self.P, f, b, lambda m_, n=n: m_ is n, prune=far, goals=[h, f.cfg["exit"]]) is None, f.loc(n), key + " all",
                             "an element within the distance can be left out")
                vid = root_var(f, o)
                ss = [(s, sa) for s, sa in self.sorts(f)]
                k = [self.comparator(f, s, sa[2]) for s, sa in ss]
                if any(x is None for x in k):
                    c.note(f"{f.loc(n)}: comparison not understood")
                    continue
                c.ob("M01.near", bool(k) and k[-1][0] and k[-1][1] == ".first" and k[-1][2] == ".first", f.loc(n), key + " order",
                     "the elements found are not sorted by ascending distance")
                if ss:
                    c.ob("M01.near", escape(self.P, f, n, lambda y: y is ss[-1][0]) is None, f.loc(n), key + " sorted last", "elements are stored after sorting")

    # -------------------------------------------------- the Mahalanobis distance
    def maha(self):
        c = self.c
        c.rule("M01.covariance", "the Mahalanobis distance uses lanelet, pose, covariance and kappa, and rejects covariances it cannot invert", 1)
        fs = [f for f in self.mine if last(f.name) == "getMahalanobisDistSq"]
        if not fs:
            raise AnalysisBroken("getMahalanobisDistSq vanished")
        for f in fs:
            body = {}
            st = [f]
            seen = set()
            while st:
                g = st.pop()
                if g.id in seen:
                    continue
                seen.add(g.id)
                for n in g.nodes.values():
                    if n["k"] == "MemberExpr":
                        body.setdefault(last(n["m"]), (g, n))
                    if n["k"] in CALLS:
                        body.setdefault(last(n.get("f", "")) + "()", (g, n))
                        st += [h for h in self.P.targets(n) if "/lanelet2_matching/" in h.file and h.cfg]
            for m in ("positionCovariance", "vonMisesKappa", "pose", "centerline()", "inverse()"):
                c.ob("M01.covariance", m in body, f.loc(), "uses " + m, f"the Mahalanobis distance does not depend on {m} any more")
            if "inverse()" in body:
                g, n = body["inverse()"]
                guards = [x for x in g.nodes.values() if x["k"] == "CXXThrowExpr"]
                dets = [x for x in g.nodes.values() if x["k"] in CALLS and last(x.get("f", "")) == "determinant"]
                if g is f:
                    c.ob("M01.covariance", bool(guards) and bool(dets), f.loc(n), "singular", "a covariance that cannot be inverted is not rejected")


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += ch in "([{"
        d -= ch in ")]}"
        cur += ch
    return out + [cur]


def within(f, top, n):
    p = n
    while p is not None:
        if p is top:
            return True
        p = f.parent(p)
    return False
