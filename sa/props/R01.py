"""R01: routing edges only connect what the traffic rules allow."""
import re
from ..core import *
from ..routing import relations
from ..prov import Prov, is_container
from ..facts import AnalysisBroken

WR = ("ConstLaneletOrArea", "VertexInfo", "ConstLanelet", "ConstArea")
DRIVE = ("Successor", "Area")
CHANGE = ("Left", "Right")


def strip(k):
    """remove wrappers that only change the static type of an element"""
    while True:
        m = re.fullmatch(r"(?:ConstLaneletOrArea|ConstLanelet|ConstArea|VertexInfo)\((.*)\)", k)
        if not m or not balanced(m.group(1)):
            return k
        k = m.group(1)


def balanced(s):
    d = 0
    for i, ch in enumerate(s):
        d += ch in "([{"
        d -= ch in ")]}"
        if d < 0 or (ch == "," and d == 0):
            return False
    return d == 0


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        if ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


def query(fact, name, *keys):
    """fact is a positive answer of a traffic rules query for exactly these elements"""
    kind, key, pol = fact
    if kind != "true" or not pol:
        return False
    m = re.fullmatch(r".*?\b" + name + r"\((.*)\)", key)
    if not m or not balanced("(" + m.group(1) + ")"):
        return False
    return [strip(x) for x in split(m.group(1))] == [strip(k) for k in keys]


def consts(P, f, e, rel):
    """relation names an expression can denote, None when it is not a constant"""
    u = unwrap(f, e)
    k = P.key(f, u)
    if k.startswith("e:"):
        return {k.rsplit("::", 1)[-1].rsplit(":", 1)[-1]}
    if u["k"] == "ConditionalOperator":
        a, b = consts(P, f, u["c"][1], rel), consts(P, f, u["c"][2], rel)
        return a | b if a and b else None
    if u["k"] == "DeclRefExpr" and u.get("d", {}).get("k") == "Var":
        h = P._owner(f, u["d"]["id"])
        vals = set()
        ds = []
        if h is not None:
            if h.vardefs.get(u["d"]["id"]) is not None:
                ds.append(h.vardefs[u["d"]["id"]])
            for m in h.mods.get(u["d"]["id"], ()):
                if m["k"] == "BinaryOperator" and m.get("op") == "=":
                    ds.append(m["c"][1])
                else:
                    return None
        for x in ds:
            c = consts(P, h, x, rel)
            if c is None:
                return None
            vals |= c
        return vals or None
    return None


def allowed_here(P, f, site, relkey, names):
    """names of relations the expression with key relkey can still denote at the site"""
    out = set()
    for nm in names:
        def excl(x):
            # facts contradicting relkey == nm
            if x[0] != "eq":
                return False
            m = re.fullmatch(r"(.*)==(.*)", x[1])
            if not m:
                return False
            a, b = m.groups()
            for p, q in ((a, b), (b, a)):
                if p == relkey and q.startswith("e:"):
                    same = q.rsplit("::", 1)[-1].rsplit(":", 1)[-1] == nm
                    return same != x[2]
            return False
        st = P.state_at(f, site)
        if st is None:
            continue
        if any(x[0] == "case" and x[1].startswith(relkey + "==") for x in st):
            if not any(x[0] == "case" and x[1].startswith(relkey + "==") and x[1].endswith("::" + nm) for x in st):
                continue
        if P.holds(f, site, excl):
            continue
        out.add(nm)
    return out


def run(c):
    P = c.program("routing")
    rel = {n for n, v in relations(P).items() if v}
    c.rule("members", "only elements the traffic rules allow to be used become vertices or members of the passable map", 4)
    c.rule("drivable", "drivable edges are only added for ordered pairs the traffic rules allowed to be passed", 6)
    c.rule("lane-change", "lane change edges are only added for ordered pairs the traffic rules allowed to change between", 2)
    c.rule("side", "candidates on one side only ever become lane changes to that side", 4)
    c.rule("models", "every cost model adds its own edge for each relation, under its own id and cost", 3)
    c.rule("cost", "cost models are asked for the cost of the kind of relation that is added, for the same ordered pair", 3)
    c.rule("store", "the stored edge runs from the first to the second element with the given costs", 2)
    builder = [f for f in P.lib() if "RoutingGraphBuilder" in (f.cls or "") or "RoutingGraphBuilder" in f.file]
    if not builder:
        raise AnalysisBroken("no routing graph builder found")
    RT = lambda f, e: "RelationType" in f.type(e)
    is_enter = lambda f, n: short(n.get("f") or "") == "addVertex"
    # ---------------------------------------------------------------- members
    nmem = 0
    for f in P.lib():
        if f.flag("dep"):
            continue
        for n in f.calls():
            s = short(n.get("f") or "")
            if s not in ("addVertex", "createConstSubmap") or "lanelet2_routing" not in f.file:
                continue
            args = call_args(f, n)
            if s == "addVertex" and not re.search(r"\bVertexInfo\b", f.type(args[0])):
                continue
            if "Route" in (f.cls or "") and "Graph" not in (f.cls or ""):
                continue
            if not any("RoutingGraphBuilder" in (g.cls or "") for g in [f]) and "RoutingGraphBuilder" not in f.file:
                continue
            for a in args:
                def pred(st, k):
                    return any(query(x, "canPass", k) for x in st)
                pr = Prov(P, pred, WR)
                ok = pr.contents(f, a) if is_container(f.type(a)) else pr.guarded(f, a, n)
                nmem += 1
                c.ob("members", ok, pr.why[0] if pr.why else f.loc(n), f"{f.name}|{s}|{nmem}",
                     f"{s} receives elements that were not established as passable by the traffic rules",
                     sample=f"{f.loc(n)}: {s} argument established at {pr.sites} site(s)")
    # ---------------------------------------------------------------- edges
    want = {}
    def flows(f, n, froms, tos, rele, d=0, chain=()):
        """yield (f, call, from expr, to expr, relations) contexts in which the relation is known"""
        names = consts(P, f, rele, rel)
        st = P.state_at(f, n)
        if st is None:
            return
        if names is not None:
            yield f, n, froms, tos, names, chain
            return
        u = unwrap(f, rele)
        if u["k"] == "DeclRefExpr" and u.get("d", {}).get("k") == "Parm" and d < 6:
            pi = next((i for i, p in enumerate(f.params) if p["id"] == u["d"]["id"]), None)
            if pi is not None:
                cs = [x for x in P.callsites(f.id) if not x[0].flag("dep")]
                if not cs:
                    raise AnalysisBroken(f"{f.loc(n)}: {f.name} adds edges but is never called")
                relk = "v:" + f.params[pi]["id"]
                poss = allowed_here(P, f, n, relk, rel)
                want.setdefault(relk, [f, set(), set()])[1].update(poss)
                for g, m in cs:
                    args = call_args(g, m)
                    asked = call_names(P, g, args[pi])
                    if asked and d == 0:
                        want[relk][2].update((x, g.loc(m)) for x in asked)
                    for r in flows(g, m, None, None, args[pi], d + 1, chain + ((f, n, froms, tos, m),)):
                        if r[4] & poss:
                            yield r[:4] + (r[4] & poss,) + r[5:]
                return
        raise AnalysisBroken(f"{f.loc(n)}: relation of an added edge is not understood")

    def arg_up(chain, f, e, lvl):
        return e

    def up(f, e, g, m):
        """expression of caller g (call m) that callee expression e of f denotes (parameters only)"""
        u = unwrap(f, e)
        while u["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(u.get("c", ())) == 1:
            u = unwrap(f, u["c"][0])
        r = root_var2(P, f, u)
        for i, p in enumerate(f.params):
            if p["id"] == r:
                return call_args(g, m)[i], (P.key(f, u), "v:" + p["id"])
        return None, None

    sites = []
    edge_site_info = []
    for f in P.lib():
        if f.flag("dep") or "RoutingGraphBuilder" not in f.file:
            continue
        for n in f.calls():
            if short(n.get("f") or "") != "addEdge":
                continue
            args = call_args(f, n)
            if len(args) != 3 or "EdgeInfo" not in f.type(args[2]):
                continue
            e = unwrap(f, args[2])
            fields = edge_fields(P, f, e, n)
            if fields is None:
                raise AnalysisBroken(f"{f.loc(n)}: edge information of an added edge is not understood")
            edge_site_info.append((f, n, args, fields))
    if not edge_site_info:
        raise AnalysisBroken("no added edges found in the routing graph builder")
    collectors = {}
    lc_ok = {}
    for f, n, args, fl in edge_site_info:
        for rele in fl["relation"]:
            for g, m, _, _, names, chain in flows(f, n, args[0], args[1], rele):
                # translate the pair up the chain
                fe, te = args[0], args[1]
                cf, cn = f, n
                fs = [(f, n)]
                okpair = None
                cur = (f, n, fe, te)
                steps = list(chain)
                pairs = [(f, n, fe, te)]
                cf = f
                for (h, hn, _, _, callnode) in steps:
                    # h called from the next level with callnode
                    nxt = None
                    for (q, qn) in P.callsites(h.id):
                        if qn is callnode:
                            nxt = q
                    a, ka = up(cf, fe, nxt, callnode)
                    b, kb = up(cf, te, nxt, callnode)
                    if a is None or b is None:
                        pairs.append(None)
                        break
                    cf, fe, te = nxt, a, b
                    pairs.append((nxt, callnode, fe, te))
                drive = names & set(DRIVE)
                change = names & set(CHANGE)
                if drive:
                    ok = any(p is not None and pair_guarded(P, p, "canPass") for p in pairs)
                    last = [p for p in pairs if p is not None][-1]
                    c.ob("drivable", ok, last[0].loc(last[1]), f"{last[0].name}|{'+'.join(sorted(drive))}|{P.key(last[0], last[2])}>{P.key(last[0], last[3])}"[:300],
                         f"a {'/'.join(sorted(drive))} edge is added without a positive canPass answer for exactly this ordered pair",
                         sample=f"{last[0].loc(last[1])}: canPass established for ({strip(P.key(last[0], last[2]))[:40]}, {strip(P.key(last[0], last[3]))[:40]})")
                if change:
                    ok, where, col = change_guarded(P, c, pairs, names)
                    c.ob("lane-change", ok, where, f"{f.name}|{'+'.join(sorted(change))}|{where.split(':')[0]}",
                         f"a lane change edge ({'/'.join(sorted(change))}) is added without a positive canChangeLane answer for this ordered pair")
    for relk, (f, poss, asked) in want.items():
        for nm, where in sorted(asked):
            if nm in DRIVE + CHANGE:
                c.ob("models", nm in poss, where, f"{f.name}|dropped|{nm}", f"relation {nm} is asked for here but {f.short} never adds an edge for it")
    sides(P, c, builder)
    costs(P, c, edge_site_info, rel)
    store(P, c)
    c.analysed["edge_sites"] = len(edge_site_info)


def edge_fields(P, f, e, n):
    """field name -> list of defining expressions of an EdgeInfo value"""
    rec = P.recbyname.get("lanelet::routing::internal::EdgeInfo")
    rec = rec[0] if isinstance(rec, list) else rec
    names = [x["n"] for x in rec["fields"]]
    if e["k"] in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr") and e.get("c"):
        cs = [f.node(x) for x in e["c"]]
        if len(cs) == 1 and "EdgeInfo" in f.type(cs[0]):
            return edge_fields(P, f, unwrap(f, cs[0]), n)
        return {nm: [x] for nm, x in zip(names, cs)}
    if e["k"] == "DeclRefExpr" and e.get("d", {}).get("k") == "Var":
        vid = e["d"]["id"]
        out = {nm: [] for nm in names}
        init = f.vardefs.get(vid)
        if init is not None:
            i = unwrap(f, init)
            cs = [f.node(x) for x in i.get("c", ())] if i["k"] in ("InitListExpr", "CXXConstructExpr") else []
            if len(cs) == len(names) and all(x["k"] != "ImplicitValueInitExpr" for x in cs):
                for nm, x in zip(names, cs):
                    out[nm].append(x)
        for b in f.all("BinaryOperator"):
            if b["op"] == "=":
                l = unwrap(f, b["c"][0])
                if l["k"] == "MemberExpr" and root_var(f, l) == vid and short(l["m"]) in out:
                    out[short(l["m"])].append(b["c"][1])
        if all(out.values()):
            return out
    return None


def pair_guarded(P, p, name):
    f, n, fe, te = p
    ka, kb = strip(P.key(f, fe)), strip(P.key(f, te))
    st = P.state_at(f, n)
    if st is None:
        return True
    pred = lambda x: query(x, name, ka, kb)
    if any(pred(x) for x in st) or P.holds(f, n, pred):
        return True
    for ue, other, first in ((te, ka, False), (fe, kb, True)):
        pr = Prov(P, (lambda s, k: any(query(x, name, k, other) if first else query(x, name, other, k) for x in s)), WR)
        u = pr._strip(f, ue)
        cont = pr.container_of(f, u)
        if cont is not None and pr.contents(cont[0], cont[1]) and pr.sites:
            return True
    return False


def change_guarded(P, c, pairs, names):
    """lane change pairs come from a collection that only holds pairs with a positive canChangeLane answer"""
    last = None
    for p in pairs:
        if p is None:
            continue
        last = p
        if pair_guarded(P, p, "canChangeLane"):
            return True, p[0].loc(p[1]), None
    f, n, fe, te = last
    where = f.loc(n)
    # zipped lists taken out of a collector: first/second of its result, in this order
    def proj(e):
        out = set()
        for g, x in P.slice(f, e, stop=lambda g, x: False):
            if x["k"] == "MemberExpr" and short(x["m"]) in ("first", "second") and "vector" in g.type(x):
                out.add(short(x["m"]))
        return out
    pa, pb = proj(fe), proj(te)
    if pa != {"first"} or pb != {"second"}:
        return False, where, None
    src = [x for g, x in P.slice(f, fe) if x["k"] == "CXXMemberCallExpr" and P.targets(x) and "lanelet" in (x.get("f") or "") and
           short(x["f"]).startswith("getNext")]
    col = None
    for x in src:
        col = call_obj(f, x)
        cls = P.targets(x)[0].cls
    if col is None:
        return False, where, None
    return collector_ok(P, c, cls, where)


def collector_ok(P, c, cls, where):
    meths = [f for f in P.lib() if f.cls == cls and not f.flag("dep")]
    bad = None
    for f in meths:
        for n in f.calls():
            s = short(n.get("f") or "")
            o = call_obj(f, n)
            # pairs enter the collection only from guarded call sites, in order
            if o is not None and unwrap(f, o)["k"] == "MemberExpr" and P.key(f, o).startswith("this.") and \
                    s in ("emplace", "insert", "emplace_hint", "insert_or_assign", "try_emplace", "push_back", "emplace_back"):
                vids = [p["id"] for p in f.params]
                order = [x["d"]["id"] for a in call_args(f, n) for x in walk_nodes(f, a) if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") == "Parm"]
                order = [v for v in order if v in vids]
                if len(order) < 2:
                    bad = bad or f.loc(n)
                    continue
                ia, ib = vids.index(order[0]), vids.index(order[1])
                for g, m in P.callsites(f.id):
                    a = call_args(g, m)
                    if not pair_guarded(P, (g, m, a[ia], a[ib]), "canChangeLane"):
                        return False, g.loc(m), None
    for f in meths:
        for n in f.calls():
            s = short(n.get("f") or "")
            o = call_obj(f, n)
            if s not in ("push_back", "emplace_back") or o is None:
                continue
            uo = unwrap(f, o)
            if uo["k"] != "MemberExpr" or short(uo["m"]) not in ("first", "second"):
                continue
            k = P.key(f, call_args(f, n)[0])
            if short(uo["m"]) == "first":
                ok = P.holds(f, n, lambda x: x[0] == "isend" and not x[2] and ("find(" + k + ")" in x[1] or True) and x[1] != "")
                # the looked up entry is the one of this element
                st = P.state_at(f, n) or set()
                ok = ok and any(x[0] == "def" and x[1].endswith(f".find({k})") for x in st) or any(
                    x[0] == "isend" and not x[2] and f"find({k})" in x[1] for x in st)
            else:
                ok = P.holds(f, n, lambda x: x[0] == "eq" and x[2] and k in x[1] and "target" in x[1])
            if not ok:
                return False, f.loc(n), None
    # results keep sources and targets apart
    for f in meths:
        for n in f.all("CXXOperatorCallExpr", "BinaryOperator"):
            if n.get("op") != "=":
                continue
            l, r = (n["c"][1], n["c"][2]) if n["k"] == "CXXOperatorCallExpr" else (n["c"][0], n["c"][1])
            l = unwrap(f, l)
            if l["k"] != "MemberExpr" or short(l["m"]) not in ("first", "second") or "vector" not in f.type(l):
                continue
            side = short(l["m"])
            for x in walk_nodes(f, r):
                if x["k"] == "MemberExpr" and short(x["m"]) in ("first", "second") and "vector" in f.type(x) and short(x["m"]) != side:
                    return False, f.loc(n), None
                if x["k"] == "MemberExpr" and short(x["m"]) == "target" and side == "first":
                    return False, f.loc(n), None
    if bad:
        return False, bad, None
    return True, where, None


def walk_nodes(f, n):
    st = [f.node(n)]
    while st:
        x = st.pop(0)
        if x is None:
            continue
        yield x
        st = [f.node(y) for y in kids(x)] + st


SIDE = {"Left": "left", "AdjacentLeft": "left", "Right": "right", "AdjacentRight": "right"}


def side_words(P, f, e):
    out = set()
    for x in walk_nodes(f, e):
        k = None
        if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") == "Enum":
            k = short(x["d"]["n"])
        elif x["k"] in CALLS:
            k = short(x.get("f") or "")
        elif x["k"] == "MemberExpr":
            k = short(x["m"])
        if k is None:
            continue
        if k in SIDE:
            out.add(SIDE[k])
        elif re.match(r"(left|Left)|.*(Left)", k):
            out.add("left")
        elif re.match(r"(right|Right)|.*(Right)", k):
            out.add("right")
    return out


def sides(P, c, builder):
    """calls that name a side in more than one argument name the same one; a local collection is tied to one side"""
    tie = {}
    for f in builder:
        if f.flag("dep"):
            continue
        for n in f.calls():
            args = call_args(f, n)
            if not any("RelationType" in f.type(a) for a in args) or not n.get("f", "") or not P.targets(n):
                continue
            if not P.targets(n)[0].cls or "Builder" not in P.targets(n)[0].cls:
                continue
            sw = set()
            for a in args:
                sw |= side_words(P, f, a)
            if not sw:
                continue
            c.ob("side", len(sw) == 1, f.loc(n), f"{f.name}|{short(n['f'])}|{f.loc(n)}", f"{short(n['f'])} is called with arguments of both sides")
            for a in args:
                u = unwrap(f, a)
                if u["k"] == "DeclRefExpr" and u.get("d", {}).get("k") == "Var" and "Collector" in f.type(u) and len(sw) == 1:
                    tie.setdefault((f.id, u["d"]["id"]), set()).update(sw)
                    if len(tie[(f.id, u["d"]["id"])]) == 2:
                        c.ob("side", False, f.loc(n), f"{f.name}|{u['d']['n']}", f"candidates collected in '{u['d']['n']}' for one side are used for the other")
        for n in f.all("ConditionalOperator"):
            cond = side_words(P, f, n["c"][0])
            a, b = side_words(P, f, n["c"][1]), side_words(P, f, n["c"][2])
            u = unwrap(f, n["c"][0])
            if len(cond) == 1 and len(a) == 1 and len(b) == 1 and u.get("op") in ("==", "!="):
                want = cond if u["op"] == "==" else {"left", "right"} - cond
                c.ob("side", a == want and b != want, f.loc(n), f"{f.name}|cond|{f.loc(n)}", "the side chosen does not match the side asked for")


def costs(P, c, infos, rel):
    for f, n, args, fl in infos:
        # cost id is the index of a loop over all cost models
        cid = fl["costId"][0]
        vk = root_var(f, cid)
        loop = None
        for x in f.all("ForStmt"):
            if vk is not None and any(y["k"] == "DeclStmt" and any(v["id"] == vk for v in y.get("vars", ())) for y in walk_nodes(f, x)):
                loop = x
        if loop is None or not inside(f, n, loop):
            c.ob("models", False, f.loc(n), f"{f.name}|loop|{len(infos)}", "the edge is not added once per cost model with that model's id")
            continue
        c.ob("models", not skips(P, f, loop, {m["i"] for g, m, _, _ in infos if g is f}), f.loc(loop), f"{f.name}|skip|{f.loc(n)}",
             "an iteration over the cost models can end without adding the model's edge")
        lockstep(P, c, f, n, args)
        # every iteration over cost models: start at zero, up to the number of cost models, step one
        init = f.vardefs.get(vk)
        zero = init is not None and const_int(f, init) == 0
        cond = [x for x in walk_nodes(f, loop["cond"] if "cond" in loop else loop["c"][0])] if False else None
        st = P.state_at(f, n) or set()
        bound = any(x[0] == "cmp" and re.match(r"v:" + re.escape(vk) + r"(<|!=)", x[1]) and "routingCosts" in x[1] and ".size()" in x[1] and
                    not re.search(r"[-+]\s*#|[-+/*]", x[1].split("size()", 1)[1]) for x in st) or \
            any(x[0] == "eq" and not x[2] and vk in x[1] and ".size()" in x[1] for x in st)
        steps = [m for m in f.mods.get(vk, ())]
        one = len(steps) == 1 and steps[0]["k"] == "UnaryOperator" and steps[0]["op"] in ("++", "p++", "++p", "x++") or \
            len(steps) == 1 and "++" in str(steps[0].get("op"))
        c.ob("models", bool(zero and bound and one), f.loc(loop), f"{f.name}|range|{f.loc(n)}", "not every cost model is iterated")
        # the cost comes from the model with the same id
        for ce in fl["routingCost"]:
            for g, x in P.slice(f, ce):
                if x["k"] in CALLS and short(x.get("f") or "") in ("getCostSucceeding", "getCostLaneChange"):
                    ok = P.key(f, call_obj(f, x)) .find(f"routingCosts_[v:{vk}]") >= 0 or re.search(r"\[(RoutingCostId\()?v:" + re.escape(vk) + r"\)?\]", P.key(f, call_obj(f, x)))
                    c.ob("models", bool(ok), f.loc(x), f"{f.name}|model|{short(x['f'])}", "the cost of one model is stored under the id of another")
                    # same ordered pair
                    a = call_args(f, x)
                    ra, rb = root_var2(P, f, a[1]), root_var2(P, f, a[2])
                    ea, eb = root_var2(P, f, args[0]), root_var2(P, f, args[1])
                    c.ob("cost", ra == ea and rb == eb and ra is not None, f.loc(x), f"{f.name}|pair|{short(x['f'])}", "the cost is asked for a different ordered pair than the edge connects")
        for relx in fl["relation"]:
            names = consts(P, f, relx, rel)
            relk = P.key(f, relx)
            for ce in fl["routingCost"]:
                u = unwrap(f, ce)
                site = None
                calls = [x for g, x in P.slice(f, ce) if x["k"] in CALLS and short(x.get("f") or "") in ("getCostSucceeding", "getCostLaneChange")]
                site = calls[0] if calls else u
                poss = names if names is not None else allowed_here(P, f, site, relk, rel)
                asserted = asserted_names(P, f, relk)
                if names is None and asserted:
                    poss = poss & asserted
                if calls:
                    want = set(DRIVE) if short(calls[0]["f"]) == "getCostSucceeding" else set(CHANGE)
                    c.ob("cost", poss <= want, f.loc(site), f"{f.name}|{short(calls[0]['f'])}|{f.loc(n)}",
                         f"{short(calls[0]['f'])} is used for relations {sorted(poss - want)}")
                else:
                    if names is not None and names <= {"AdjacentLeft", "AdjacentRight"}:
                        fin = lambda x: x[0] == "true" and not x[2] and x[1].startswith("isfinite(")
                        c.ob("cost", P.holds(f, n, fin), f.loc(n), f"{f.name}|downgrade", "an allowed lane change is replaced by a mere adjacency although its cost is finite, or an infinite one is not")
                    bad = poss & (set(DRIVE) | set(CHANGE))
                    c.ob("cost", not bad, f.loc(site), f"{f.name}|constant|{f.loc(n)}",
                         f"a constant cost is used for drivable relation {sorted(bad)}")


def skips(P, f, loop, edges):
    """can the loop start its next iteration without passing one of the given nodes?"""
    cfg = f.cfg
    head = [b for b, x in cfg["blocks"].items() if x.get("ti") == loop["i"]]
    if not head:
        return False
    head = head[0]
    body = cfg["blocks"][head]["s"][0]
    st, seen = [body], set()
    while st:
        b = st.pop()
        if b is None or b in seen:
            continue
        if b == head:
            return True
        seen.add(b)
        blk = cfg["blocks"][b]
        if any(isinstance(e, int) and e in edges for e in blk["e"]) or blk.get("noret"):
            continue
        st += [x for x in blk["s"] if x is not None]
    return False


def lockstep(P, c, f, n, args):
    """lists whose front elements are paired are only changed together"""
    vs = []
    for a in args[:2]:
        u = unwrap(f, a)
        while u["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(u.get("c", ())) == 1:
            u = unwrap(f, u["c"][0])
        if u["k"] in CALLS and short(u.get("f") or "") in ("front", "back", "operator[]", "at") and call_obj(f, u) is not None:
            o = unwrap(f, call_obj(f, u))
            if o["k"] == "DeclRefExpr":
                vs.append((o["d"]["id"], P.key(f, u).replace("v:" + o["d"]["id"], "$")))
    if len(vs) != 2:
        return
    c.ob("cost", vs[0][1] == vs[1][1], f.loc(n), f"{f.name}|zip|{f.loc(n)}", "elements of different positions are paired")
    ops = []
    for vid, _ in vs:
        ops.append(sorted(P.key(f, m).replace("v:" + vid, "$") for m in f.calls() if call_obj(f, m) is not None and not m.get("fconst") and
                          unwrap(f, call_obj(f, m)).get("d", {}).get("id") == vid and short(m["f"]) not in ("begin", "end", "front", "back", "at")))
    c.ob("cost", ops[0] == ops[1], f.loc(n), f"{f.name}|lockstep|{f.loc(n)}", "paired lists are not changed in the same way")


def root_var2(P, f, e):
    rs = {x["d"]["id"] for x in walk_nodes(f, e) if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") in ("Var", "Parm")}
    return rs.pop() if len(rs) == 1 else None


def asserted_names(P, f, relk):
    """relations an assertion at the function's entry admits (contract of an internal helper)"""
    out = set()
    for n in f.all("ConditionalOperator"):
        # assert expands to a conditional calling __assert_fail
        if any(x["k"] in CALLS and "__assert_fail" in (x.get("f") or "") for x in walk_nodes(f, n)):
            txt = walk_nodes(f, n["c"][0])
            nms = {short(x["d"]["n"]) for x in txt if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") == "Enum" and "RelationType" in x["d"]["n"]}
            out |= nms
    # callers decide when there is no assertion
    vid = relk[2:] if relk.startswith("v:") else None
    for i, p in enumerate(f.params):
        if p["id"] == vid:
            s = set()
            for g, m in P.callsites(f.id):
                q = call_names(P, g, call_args(g, m)[i])
                if q is None:
                    return out
                s |= q
            return s if s else out
    return out


def call_names(P, g, e, d=0):
    cs = consts(P, g, e, None)
    if cs is not None:
        return cs
    u = unwrap(g, e)
    if u["k"] == "DeclRefExpr" and u.get("d", {}).get("k") == "Parm" and d < 5:
        for i, p in enumerate(g.params):
            if p["id"] == u["d"]["id"]:
                out = set()
                for h, m in P.callsites(g.id):
                    q = call_names(P, h, call_args(h, m)[i], d + 1)
                    if q is None:
                        return None
                    out |= q
                return out or None
    return None


def inside(f, n, anc):
    while n is not None:
        if n is anc:
            return True
        n = f.parent(n)
    return False


def store(P, c):
    for f in P.lib():
        if f.short != "addEdge" or "internal::Graph" not in (f.cls or "") or f.flag("dep"):
            continue
        if len(f.params) != 3:
            continue
        ks = ["v:" + p["id"] for p in f.params]
        for n in f.calls():
            s = short(n.get("f") or "")
            if s == "add_edge":
                a = [P.key(f, x) for x in call_args(f, n)]
                c.ob("store", a[0] == ks[0] and a[1] == ks[1] and "graph_" in a[2], f.loc(n), f"{f.cls}|add_edge", "the edge is stored in the wrong direction")
            elif s == "addEdge":
                a = [P.key(f, x) for x in call_args(f, n)]
                c.ob("store", f"({ks[0]})" in a[0] and f"({ks[1]})" in a[1] and a[2] == ks[2], f.loc(n), f"{f.cls}|fwd", "edge ends are exchanged when forwarded")
            elif s == "getVertex":
                pass
