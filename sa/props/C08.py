"""C08: left and right are mirror images, inverted views exchange sides and reverse order in every accessor."""
import re
from collections import defaultdict
from ..core import *
from ..facts import AnalysisBroken
from ..inverted import Ev, Undecided, flip, flip_effects
from .C11 import records
from .V02 import wk

SKIP = re.compile(r"ightOfWay|right_of_way|copyright|[lL]eft_?(or|Or)?_?[rR]ight|[rR]ight_?[lL]eft")
TOK = re.compile(r"[lL]eft|[rR]ight|LEFT|RIGHT")
M = {"L": "R", "R": "L"}


def last(q):
    return re.sub(r"<.*", "", q).rsplit("::", 1)[-1]


def side(q):
    """'L' / 'R' if the name belongs to one side"""
    t = last(q)
    if SKIP.search(t):
        return None
    m = TOK.findall(t)
    return m[0][0].upper() if len(m) == 1 else None


def fam(q):
    return TOK.sub("@", last(q))


def names(n):
    """(name, kind) of what a node refers to; kind 'v' for local variables"""
    if n["k"] in CALLS and n.get("f"):
        yield n["f"], "f"
    if n["k"] == "MemberExpr" and n.get("m"):
        yield n["m"], "m"
    d = n.get("d") or {}
    if n["k"] == "DeclRefExpr" and d.get("n"):
        yield d["n"], "v" if d.get("k") in ("Var", "Parm") else "g"
    if n["k"] == "StringLiteral":
        yield n["v"], "s"


def run(c):
    P = c.program("core", "io", "projection", "traffic_rules", "routing", "matching", "validation", "wit", "wit_views")
    lib = [f for f in P.lib() if not f.flag("dep")]

    def nodes_of(f, lambdas=True):
        for n in sorted(f.nodes.values(), key=lambda n: n["i"]):
            yield f, n
            if lambdas:
                for l in P.lambdas(n):
                    yield from nodes_of(l)

    def uses(f, n, locals_=True):
        """sides of the symbols in an expression (lambdas included)"""
        out = []
        for x in wk(f, n):
            for q, k in names(x):
                if side(q) and (locals_ or k != "v"):
                    out.append((fam(q), side(q), k))
            for l in P.lambdas(x):
                for g, y in nodes_of(l):
                    for q, k in names(y):
                        if side(q) and (locals_ or k != "v"):
                            out.append((fam(q), side(q), k))
        return out

    def inverts(f, n):
        return any(x["k"] in CALLS and last(x.get("f", "")) in ("invert", "inverted") for x in wk(f, n))

    def guarded_by_inverted(f, n):
        try:
            return any("invert" in str(k[1]) for k in P.state_at(f, n) or ())
        except Exception:
            return True

    # ------------------------------------------------------------ rule 1: values end up on their own side
    c.rule("own-side", "a variable, field, parameter or assignment target named after one side is never given a value that stems "
           "from the other side only, except through an inverted view or by a mirrored function that exchanges its arguments", 15)
    done = set()

    def flows(f, where, name, val, what, exchange=False):
        s = side(name)
        if not s or val is None:
            return
        u = {x[1] for x in uses(f, val)}
        if not u:
            return
        key = (f.loc(where), what, name)
        if key in done:
            return
        done.add(key)
        ok = u != {M[s]} or exchange or inverts(f, val) or guarded_by_inverted(f, where)
        c.ob("own-side", ok, f.loc(where), "%s:%s:%s" % (f.name, what, last(name)),
             "%s '%s' gets a value that comes from the other side only" % (what, last(name)),
             sample="%s %s" % (what, last(name)))

    for f in lib:
        for n in f.nodes.values():
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if v.get("init") is not None:
                        flows(f, n, v["n"], v["init"], "variable")
            elif n["k"] == "BinaryOperator" and n.get("op") == "=" or n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
                l, r = (n["c"][0], n["c"][1]) if n["k"] == "BinaryOperator" else (n["c"][1], n["c"][2])
                ls = {(x[1]) for x in uses(f, l)}
                nm = [q for x in wk(f, l) for q, k in names(x) if side(q)]
                if len(ls) == 1:
                    flows(f, n, nm[0], r, "assignment to")
                # tie(left, right) = f(left, right): the order is kept
                lc, rc = unwrap(f, f.node(l)), unwrap(f, f.node(r))
                if lc is not None and rc is not None and lc["k"] in CALLS and rc["k"] in CALLS and last(lc.get("f", "")) == "tie":
                    def order(q):
                        return [next(iter(u)) for u in ({x[1] for x in uses(f, a)} for a in call_args(f, q) if a is not None) if len(u) == 1]
                    a, b = order(lc), order(rc)
                    if sorted(a) == ["L", "R"] == sorted(b) and (f.loc(n), "tie") not in done:
                        done.add((f.loc(n), "tie"))
                        c.ob("own-side", a == b, f.loc(n), f.name + ":tie", "the two sides are exchanged by a call that keeps their order",
                             sample="tie in " + f.short)
            elif n["k"] in CALLS:
                ts = P.targets(n)
                if not ts or "/usr/" in ts[0].loc():
                    continue
                t, a = ts[0], call_args(f, n)
                # a function of one side written with its mirror image: all sided arguments are exchanged
                pr = [(p["n"], x) for p, x in zip(t.params, a) if x is not None and side(p.get("n") or "")]
                us = [({x[1] for x in uses(f, x)}, side(p)) for p, x in pr]
                ex = side(f.short) and side(t.short) == M[side(f.short)] and fam(t.short) == fam(f.short) and \
                    all(u == {M[s]} or not u for u, s in us)
                for p, x in pr:
                    flows(f, x if isinstance(x, dict) and "i" in x else n, p, x, "parameter %s of" % last(t.name), ex)
        for i in f.d.get("inits", ()) or ():
            if isinstance(i, dict):
                m = i.get("m") or i.get("n") or ""
                e = i.get("e") if i.get("e") is not None else i.get("init")
                if e is not None and m:
                    flows(f, f.node(e), m, e, "member")

    # ------------------------------------------------------------ rule 2: siblings
    c.rule("mirror", "the function of one side and its sibling of the other side use mirrored data, relations and tags: for every "
           "family of names both use, the sides in one are the mirror image of the sides in the other", 15)
    c.rule("self-side", "a function of one side uses data of that side, or hands over to its sibling with the roles exchanged", 15)
    pairs = defaultdict(dict)
    for f in lib:
        if f.flag("lambda") or f.kind in ("ctor", "dtor") or not side(f.short):
            continue
        k = (f.name.rsplit("::", 1)[0], fam(f.short), len(f.params), f.loc().split(":")[0],
             tuple(TOK.sub("@", re.sub(r"^const | &$", "", f.ptype(p)))[:60] for p in f.params))
        pairs[k].setdefault(side(f.short), []).append(f)
    seenp = set()
    for k, d in sorted(pairs.items(), key=lambda x: str(x[0])):
        T = {}
        for s, fs in d.items():
            t = defaultdict(set)
            own = set()
            for f in fs:
                for g, x in nodes_of(f):
                    for q, kk in names(x):
                        if side(q) and kk != "v":
                            t[fam(q)].add(side(q))
                            own.add((fam(q), side(q)))
            T[s] = (t, own)
        for s, fs in d.items():
            f = fs[0]
            t, own = T[s]
            sides = {x[1] for x in own}
            if not sides:
                continue
            key = (f.loc(), "self")
            if key in seenp:
                continue
            seenp.add(key)
            ok = s in sides
            if not ok:
                # only the other side: has to be the sibling itself with exchanged roles, or an inverted operand
                for g in fs:
                    for n in g.nodes.values():
                        if n["k"] in CALLS and fam(n.get("f", "")) == fam(g.short) and side(n.get("f", "")) == M[s]:
                            a = [x for x in call_args(g, n) if x is not None]
                            order = [root_var(g, x) for x in a]
                            pids = [p["id"] for p in g.params]
                            order = [o for o in order if o in pids]
                            if order != [p for p in pids if p in order] or any(inverts(g, x) for x in a) or \
                                    (call_obj(g, n) is not None and inverts(g, call_obj(g, n))):
                                ok = True
                    ok = ok or any(n["k"] in CALLS and last(n.get("f", "")) == "invert" for n in g.nodes.values())
            c.ob("self-side", ok, f.loc(), f.name + ":self",
                 "%s is meant for the %s side but only uses %s" % (f.short, "left" if s == "L" else "right",
                                                                  ", ".join(sorted("%s/%s" % x for x in own))), sample=f.short)
        if set(d) != {"L", "R"}:
            continue
        for fm in sorted(set(T["L"][0]) & set(T["R"][0])):
            a, b = T["L"][0][fm], T["R"][0][fm]
            f = d["L"][0]
            key = (f.loc(), fm)
            if key in seenp:
                continue
            seenp.add(key)
            c.ob("mirror", {M[x] for x in a} == b, d["R"][0].loc(), "%s:%s:%s" % (k[0], k[1], fm),
                 "%s and %s are not mirror images: '%s' is used for side %s in one and %s in the other" %
                 (f.short, d["R"][0].short, fm, "+".join(sorted(a)), "+".join(sorted(b))), sample="%s %s" % (k[1], fm))

    # ------------------------------------------------------------ rule 3: cases within one function
    c.rule("cases", "where a function treats the two sides as separate cases, what it does in one case is the mirror image of what "
           "it does in the other", 6)

    def compared(f, n):
        """the node is itself the constant of a comparison or a case label"""
        p = f.parent(n)
        while p is not None and p["k"] in ("ParenExpr", "ConstantExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            p = f.parent(p)
        return p is not None and (p["k"] == "CaseStmt" or p["k"] == "BinaryOperator" and p.get("op") in ("==", "!=") or
                                  p["k"] == "CXXOperatorCallExpr" and p.get("op") in ("==", "!="))

    def guards(f, n, own):
        pos, neg, poslhs, neglhs = defaultdict(set), defaultdict(set), set(), defaultdict(set)
        st = P.state_at(f, n) or ()
        for k, key, pol in st:
            key = str(key)
            it, lhs = [], None
            if k in ("eq", "case"):
                m = re.match(r"^(?:e:([\w:()]+)==(.*)|(.*)==e:([\w:()]+))$", key)
                if m:
                    e, lhs = m.group(1) or m.group(4), m.group(2) or m.group(3)
                    if pol:
                        poslhs.add(lhs)
                    if side(e):
                        it = [(fam(e), side(e))]
                        if not pol:
                            neglhs[fam(e)].add(lhs)
            elif k == "true":
                m = re.match(r"^(?:[\w:]+::)?(\w+)\(", key)
                v = re.match(r"^v:(\w+)#[\d:]+$", key)
                if m and side(m.group(1)) and key in own:
                    it = [(fam(m.group(1)), side(m.group(1)))]
                elif v and side(v.group(1)):
                    it = [(fam(v.group(1)), side(v.group(1)))]
            for a, b in it:
                (pos if pol else neg)[a].add(b)
        out = {}
        for a in set(pos) | set(neg):
            s = pos[a] or (set() if neglhs[a] & poslhs else {M[x] for x in neg[a]})
            if len(s) == 1:
                out[a] = next(iter(s))
        return out

    seenc = set()
    for f in lib:
        cand = [(n, q, k) for n in sorted(f.nodes.values(), key=lambda n: n["i"]) for q, k in names(n) if k != "v" and side(q)]
        if {side(q) for _, q, _ in cand} != {"L", "R"} and not any(
                v["k"] == "DeclRefExpr" and side((v.get("d") or {}).get("n", "") or "") for v in f.nodes.values()):
            continue
        own = set()
        for n in f.nodes.values():
            if n["k"] in CALLS and side(n.get("f", "")):
                try:
                    own.add(str(P.key(f, n)))
                except Exception:
                    pass
        G = defaultdict(lambda: defaultdict(list))
        for n, q, k in cand:
            if compared(f, n):
                continue
            for gf, gs in guards(f, n, own).items():
                G[(fam(q), gf)][gs].append(side(q))
        for (s, g), d in sorted(G.items()):
            if set(d) != {"L", "R"}:
                continue
            l, r = d["L"], d["R"]
            key = (f.loc(), s, g)
            if key in seenc:
                continue
            seenc.add(key)
            if len(set(l)) == 1 and len(set(r)) == 1:
                ok = l[0] != r[0]
            elif len(l) == len(r):
                ok = [M[x] for x in l] == r
            else:
                c.note("not decided: %s (%s): '%s' in the cases of '%s' has no common shape" % (f.short, f.loc(), s, g))
                continue
            c.ob("cases", ok, f.loc(), "%s:%s|%s" % (f.name, s, g),
                 "in %s the cases of '%s' are not mirror images with respect to '%s': %s / %s" % (f.short, g, s, l, r),
                 sample="%s: %s by %s" % (f.short, s, g))

    # ------------------------------------------------------------ rule 4: co-occurrence
    c.rule("together", "names of two families that occur together in several statements of a function are related the same way in "
           "each of them", 6)
    for f in lib:
        rel = defaultdict(lambda: defaultdict(list))
        for n in sorted(f.nodes.values(), key=lambda n: n["i"]):
            p = f.parent(n)
            if p is None or p["k"] not in ("CompoundStmt", "IfStmt", "ForStmt", "CXXForRangeStmt", "CaseStmt", "SwitchStmt") or \
                    n["k"] in ("CompoundStmt", "IfStmt", "ForStmt", "CXXForRangeStmt", "WhileStmt", "SwitchStmt", "CaseStmt"):
                continue
            t = defaultdict(set)
            for a, b, k in uses(f, n):
                t[a].add(b)
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if side(v["n"]):
                        t[fam(v["n"])].add(side(v["n"]))
            pure = sorted((a, next(iter(b))) for a, b in t.items() if len(b) == 1)
            for i, (a, x) in enumerate(pure):
                for b, y in pure[i + 1:]:
                    rel[(a, b)]["same" if x == y else "other"].append((n, x))
        for (a, b), d in sorted(rel.items()):
            if sum(map(len, d.values())) < 2 or len({x for v in d.values() for _, x in v}) < 2:
                continue
            key = (f.loc(), a, b)
            if key in seenc:
                continue
            seenc.add(key)
            c.ob("together", len(d) == 1, f.loc(d[min(d, key=lambda k: len(d[k]))][0][0]), "%s:%s+%s" % (f.name, a, b),
                 "%s combines '%s' and '%s' of the same side in one statement and of different sides in another" % (f.short, a, b),
                 sample="%s: %s with %s" % (f.short, a, b))

    # ------------------------------------------------------------ rule 5: inverted views
    c.rule("inverted", "every public accessor and modifier of a view with an inverted flag, evaluated for both values of the flag, "
           "denotes with the flag set the exchanged side, the reversed order or the opposite end of what it denotes without it", 45)
    c.rule("twice", "inverting a view gives the same data with the negated flag, and conversions keep the flag", 15)

    def own_flag(f, n):
        o = call_obj(f, n)
        return n["k"] in CALLS and last(n.get("f", "")) == "inverted" and (o is None or unwrap(f, f.node(o))["k"] == "CXXThisExpr")

    c.rule("ends", "front/back/begin/end of a view that is not inverted are the first and last element of the data", 6)
    ENDS = {"front": ("front", False), "back": ("back", False), "begin": ("begin", False), "end": ("end", False),
            "basicBegin": ("begin", False), "basicEnd": ("end", False), "segmentBegin": ("begin", False), "segmentEnd": ("end", False)}
    views = {f.cls for f in lib if f.cls and any(own_flag(f, n) for n in f.nodes.values())}
    views |= {f.cls for f in lib if f.cls and any(x["n"] == "inverted_" for r in records(P, f.cls) for x in r.get("fields", ()))}
    seenv = set()
    for f in sorted(lib, key=lambda f: f.loc()):
        if f.flag("static") or not f.cls or f.flag("lambda") or f.kind in ("ctor", "dtor") or f.d.get("access") not in ("public", None):
            continue
        flagp = [p for p in f.params if p["n"] == "inverted" and f.ptype(p) == "bool"]
        if f.cls not in views and not flagp:
            continue
        if f.flag("defaulted") or "olygon" in f.short and f.kind != "conv":
            continue        # the surface of a lanelet does not depend on its direction
        res = []
        try:
            for inv in (False, True):
                r, e = Ev(P).func(f, inv, {p["id"]: ("bool", inv) for p in flagp}, ("this",) if f.cls in views else ("data",))
                res.append((r, list(e)))
        except Undecided as x:
            if any(own_flag(f, n) for n in f.nodes.values()) and (f.loc(), "u") not in seenv:
                seenv.add((f.loc(), "u"))
                c.note("not decided: %s (%s) uses the flag: %s" % (f.name, f.loc(), x))
            continue
        (r0, e0), (r1, e1) = res
        key = (f.loc(), str(res))
        if key in seenv:
            continue
        seenv.add(key)
        if f.short == "inverted" and r0 is not None and r0[0] == "bool":
            c.ob("twice", (r0[1], r1[1]) == (False, True), f.loc(), f.name, "inverted() does not report the flag", sample=f.name)
        elif r0 is not None and r0[0] == "view":
            want = (True, False) if f.short == "invert" else (False, True)
            c.ob("twice", r1[0] == "view" and (r0[1], r1[1]) == want, f.loc(), f.name,
                 "%s hands out the wrong direction of the same data" % f.name, sample=f.name)
        else:
            if f.ret() == "bool":
                continue
            if r0 is not None and f.short in ENDS and r0[0] in ("el", "it"):
                end = ENDS[f.short][0]
                c.ob("ends", (r0[2] == end and not r0[3]) if r0[0] == "el" else
                     (r0[2] in (end, {"front": "begin"}.get(end, end)) and not r0[3]), f.loc(), f.name,
                     "%s of a view that is not inverted is %s" % (f.name, show(r0, [])), sample=f.name)
            w = flip(r0) if r0 is not None else None
            c.ob("inverted", w == r1 and flip_effects(e0) == e1, f.loc(), f.name,
                 "%s: not inverted %s, inverted %s, which is not its mirror image" % (f.name, show(r0, e0), show(r1, e1)),
                 sample=f.name)

    # ------------------------------------------------------------ rule 6: the flag travels with the data
    c.rule("flag", "whoever builds a view from the data of another view hands on that view's flag", 8)
    seenf = set()
    for f in lib:
        for n in f.nodes.values():
            if n["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or not n.get("c"):
                continue
            ts = P.targets(n)
            if not ts or len(ts[0].params) != 2 or ts[0].params[1]["n"] != "inverted" or ts[0].ptype(ts[0].params[1]) != "bool":
                continue
            a0, a1 = n["c"][0], (n["c"][1] if len(n["c"]) > 1 else None)
            src = {root_var(f, call_obj(f, x)) if call_obj(f, x) is not None else "this"
                   for x in wk(f, a0) if x["k"] in CALLS and last(x.get("f", "")) in ("data", "constData")}
            src |= {"this" for x in wk(f, a0) if x["k"] == "MemberExpr" and last(x.get("m", "")) in ("data_", "laneletData_")
                    and unwrap(f, x["c"][0])["k"] == "CXXThisExpr"} if f.kind != "ctor" else set()
            if not src:
                continue
            fl = {(root_var(f, call_obj(f, x)) if call_obj(f, x) is not None else "this")
                  for x in wk(f, a1) if x["k"] in CALLS and last(x.get("f", "")) == "inverted"} if a1 is not None else set()
            fl |= {"this" for x in (wk(f, a1) if a1 is not None else ()) if x["k"] == "MemberExpr" and last(x.get("m", "")) == "inverted_"}
            if a1 is not None and not fl:
                d = (unwrap(f, f.node(a1)) or {}).get("d") or {}
                if d.get("k") in ("Var", "Parm"):
                    df = f.vardef(d["id"])
                    fl = {(root_var(f, call_obj(f, x)) if call_obj(f, x) is not None else "this")
                          for x in wk(f, df) if x["k"] in CALLS and last(x.get("f", "")) == "inverted"} if df is not None else src
            neg = a1 is not None and any(x["k"] == "UnaryOperator" and x.get("op") == "!" for x in wk(f, a1))
            key = (f.loc(n), last(n.get("f", "")))
            if key in seenf:
                continue
            seenf.add(key)
            norm = lambda s: {"this" if x in (None, "this") else x for x in s}
            c.ob("flag", norm(fl) == norm(src) and (not neg or f.short == "invert"), f.loc(n), "%s:%s" % (f.name, last(n.get("f", ""))),
                 "%s builds a view of existing data without its direction" % f.name, sample=f.name)
    for f in lib:
        if f.kind != "ctor" or not f.cls or not f.params:
            continue
        ini = f.d.get("inits", ()) or ()
        src = None
        for i in ini:
            e = i.get("e")
            if e is None:
                continue
            for x in wk(f, e):
                if x["k"] in CALLS and last(x.get("f", "")) in ("constData", "data") and call_obj(f, x) is not None:
                    src = root_var(f, call_obj(f, x))
        hasf = any(x["n"] == "inverted_" for r in records(P, f.cls)[:1] for x in r.get("fields", ()))
        if src is None or not hasf or (f.loc(), "ctor") in seenf:
            continue
        seenf.add((f.loc(), "ctor"))
        ok = False
        for i in ini:
            if last(i.get("m") or "") == "inverted_" and i.get("e") is not None:
                ok = any(x["k"] in CALLS and last(x.get("f", "")) == "inverted" and root_var(f, call_obj(f, x)) == src for x in wk(f, i["e"])) \
                    and not any(x["k"] == "UnaryOperator" for x in wk(f, i["e"]))
        c.ob("flag", ok, f.loc(), f.name + ":ctor", "%s takes over the data of another view without its direction" % f.name, sample=f.name)


def show(r, e):
    t = {"ln": lambda t: "%s%s" % (t[1], " reversed" if t[2] else ""), "it": lambda t: "%s of %s%s" % (t[2], t[1], " backwards" if t[3] else ""),
         "seq": lambda t: "%s%s%s" % (t[1], " reversed" if t[2] else "", " of inverted elements" if t[3] else ""),
         "el": lambda t: "%s[%s from the %s]" % (t[1], t[3], t[2])}
    return " ".join(([t.get(r[0], str)(r)] if r is not None else []) + [str(x) for x in e])
