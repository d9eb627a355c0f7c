"""E01: regulatory elements store and return things under the same role."""
import re
from ..core import *
from ..flow import Flow
from ..paths import *
from ..facts import AnalysisBroken
from .V01 import bases
from .V02 import Eval, Unknown

ROLE, ROLES = "lanelet::RoleName::", "lanelet::RoleNameString::"
VERB = re.compile(r"^(add|remove|set|get|clear|erase)(?=[A-Z])")
SYN = {"cancellingrefline": "cancelline"}


def thing(m):
    """(verb, normalised name of what a method handles)"""
    v = VERB.match(m)
    n = (m[v.end():] if v else m).lower()
    n = n[:-1] if n.endswith("s") and not n.endswith("ss") else n
    return (v.group(1) if v else "read"), SYN.get(n, n)


def run(c):
    P = c.program("core", "traffic_rules", "io", "validation", "routing")
    F = Flow(P)
    R = {}
    for q, r in P.recbyname.items():
        r = r if isinstance(r, dict) else r[0]
        if "lanelet::RegulatoryElement" in bases(P, r) and not q.endswith("GenericRegulatoryElement") and "Primitive<" not in q \
                and any(f.name.startswith(q + "::") for f in P.lib() if f.cls == q):
            R[q] = r
    if not R:
        raise AnalysisBroken("no regulatory element classes found")

    def role_of(f, n, env, depth=0):
        n = unwrap(f, f.node(n))
        if n is None or depth > 6:
            return None
        d = n.get("d") or {}
        q = d.get("n") or n.get("m") or ""
        if q.startswith(ROLE):
            return q[len(ROLE):]
        if q.startswith(ROLES):
            return q[len(ROLES):]
        v = d.get("id")
        if v and v in env:
            g, m, e2 = env[v]
            return role_of(g, m, e2, depth + 1)
        if v:
            df = f.vardef(v)
            if df is not None:
                return role_of(f, df, env, depth + 1)
        if n["k"] in ("CXXConstructExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr") and n.get("c"):
            a = [x for x in n["c"] if x is not None]
            if len(a) == 1 or (len(a) == 2 and f.node(a[1])["k"] == "CXXDefaultArgExpr"):
                return role_of(f, a[0], env, depth + 1)
        return None

    def roots(f, n, env, depth=0):
        """parameters of the outermost function from which the value comes: set of (function id, parameter name)"""
        G = F.graph(f)
        ids = {x[1] for x in G.back([("e", f.id, f.node(n)["i"])]) if x[0] == "v"}
        out = set()
        for p in f.params:
            if p["id"] in ids:
                if p["id"] in env and depth < 6:
                    g, m, e2 = env[p["id"]]
                    out |= roots(g, m, e2, depth + 1)
                else:
                    out.add((f.id, p["n"]))
        return out

    def hybrid(n):
        return "lanelet::HybridMap::" in (n.get("f") or "")

    def events(f, env, depth=0, seen=frozenset()):
        """(kind, role, function, node, value node, env) for every use of a role"""
        if depth > 6 or f.id in seen:
            return
        seen = seen | {f.id}
        for n in f.nodes.values():
            k = n["k"]
            if k == "CXXConstructExpr" and (n.get("f") or "").startswith("std::pair::") and len(n.get("c", ())) == 2:
                r = role_of(f, n["c"][0], env)
                if r:
                    yield "store", r, f, n, n["c"][1], env
                continue
            if k not in CALLS:
                continue
            a = [x for x in call_args(f, n) if x is not None]
            if hybrid(n):
                m = short(n["f"])
                r = role_of(f, a[0], env) if a else None
                if r:
                    p = f.parent(n)
                    kind, val = "find", None
                    # what happens with the returned element
                    x = n
                    while p is not None and (p["k"] in ("MemberExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") or
                                             (p["k"] == "CXXMemberCallExpr" and call_obj(f, p) is not None and
                                              f.node(call_obj(f, p))["i"] in (x["i"], n["i"]) and m in ("operator[]", "at"))):
                        if p["k"] == "CXXMemberCallExpr" and f.node(call_obj(f, p))["i"] in (x["i"], n["i"]):
                            mm = short(p.get("f", ""))
                            if mm in ("push_back", "emplace_back", "insert", "assign", "emplace"):
                                kind = "store"
                                val = list(call_args(f, p))[-1]
                            elif mm in ("clear", "erase"):
                                kind = "erase"
                            break
                        x, p = p, f.parent(p)
                    if p is not None and p["k"] == "CXXOperatorCallExpr" and p.get("op") == "=" and f.node(p["c"][1])["i"] == x["i"]:
                        kind, val = "store", p["c"][2]
                        if not [y for y in wk(f, val) if y["k"] == "DeclRefExpr"]:
                            kind, val = "erase", None
                    if m in ("insert", "emplace") and len(a) == 2:
                        kind, val = "store", a[1]
                    if m == "erase":
                        kind = "erase"
                    yield kind, r, f, n, val, env
                continue
            for g in P.targets(n):
                if g.id == f.id or g.flag("dep") or "/lanelet2_" not in "/" + g.loc():
                    continue
                if g.name.startswith(("lanelet::HybridMap", "lanelet::utils::")) and not any(role_of(f, x, env) for x in a):
                    continue
                e2 = {p["id"]: (f, x, env) for p, x in zip(g.params, a)}
                rs = [x for x in a if role_of(f, x, env)]
                if rs and short(g.name) == "getParameters":
                    yield "find", role_of(f, rs[0], env), f, n, None, env
                    continue
                yield from events(g, e2, depth + 1, seen)
        for n in f.all("LambdaExpr"):
            for g in P.lambdas(n):
                if g.id not in seen:
                    yield from events(g, dict(env), depth + 1, seen)

    c.rule("same-role", "the accessors, the adding and the removing operations of one thing use one role", 8)
    c.rule("own-role", "different things of one element are kept under different roles", 4)
    c.rule("constructor", "a constructor argument is stored under the role its accessor reads", 6)
    c.rule("undo", "removing reports success exactly when something was removed", 2)
    c.rule("subtype", "the subtype stored by a constructor is the name the class is registered under", 3)
    c.rule("names", "every role has exactly one name and every name one role", 1)
    c.rule("pairing", "positions found in a list that leaves out expired entries are not used to index another list", 0)
    c.rule("answers", "an answer about a role is given for membership in exactly this role", 0)

    # accessor roles per class (with inherited ones)
    own = {}
    for q in R:
        own[q] = {}
        for f in P.lib():
            if f.cls != q or f.kind != "method" or f.flag("static") or f.flag("dep"):
                continue
            verb, th = thing(f.short)
            direct = [e for e in events(f, {})]
            if not direct:
                continue
            own[q].setdefault(th, []).append((verb, f, direct))

    def kindroles(evs, kinds=None):
        return {e[1] for e in evs if kinds is None or e[0] in kinds}

    readrole = {}
    for q, ths in sorted(own.items()):
        reads = {}
        for th, ms in sorted(ths.items()):
            r = [kindroles(e) for v, f, e in ms if v == "read"]
            single = [x for x in r if len(x) == 1]
            if single and any(re.search(r"Lanelet|LineString|Polygon|Area|Point", f.ret()) for v, f, e in ms if v == "read"):
                reads[th] = next(iter(single[0]))
        readrole[q] = reads
        for th, ms in sorted(ths.items()):
            base = reads.get(th)
            for v, f, evs in ms:
                rs = kindroles(evs)
                if v == "read" and len(rs) != 1:
                    continue      # derived answers (type, getManeuver)
                if v == "get":
                    continue
                mod = kindroles(evs, ("store", "erase", "find")) if v in ("remove", "erase", "clear") else kindroles(evs, ("store", "erase"))
                if v == "read":
                    mod = rs
                if base is None:
                    continue
                if not mod:
                    c.note(f"{f.name}: role not recognised, undecided")
                    continue
                c.ob("same-role", base in mod, f.loc(), f"{q}::{f.short}:{len(f.params)}:{f.flag('const')}",
                     f"{f.name} uses the role {sorted(mod)}, but {th} is read from {base}", f"{f.short}->{base}")
                if v in ("remove", "erase", "clear"):
                    er = any(e[0] in ("erase",) for e in evs) or any(short(n.get("f", "")) == "erase" for g in {x[2].id: x[2] for x in evs}.values() for n in g.calls())
                    c.ob("undo", er, f.loc(), f"{f.name}:erases", f"{f.name} removes nothing")
        inv = {}
        for th, r in reads.items():
            inv.setdefault(r, []).append(th)
        for r, l in sorted(inv.items()):
            c.ob("own-role", len(l) == 1, R[q].get("loc", q) if isinstance(R[q].get("loc"), str) else q, f"{q}:{r}", f"{q}: {l} are all read from role {r}", f"{l[0]}={r}")
        # roles touched by an operation of another thing
        for th, ms in ths.items():
            for v, f, evs in ms:
                if v in ("add", "set", "remove") and th in reads:
                    foreign = {r for r in kindroles(evs, ("store", "erase")) if r != reads[th] and r in inv}
                    if foreign and len(kindroles(evs)) == 1:
                        c.ob("same-role", False, f.loc(), f"{f.name}:foreign", f"{f.name} changes role {sorted(foreign)}")

    def inherited(q):
        out = dict(readrole.get(q, {}))
        for b in bases(P, R[q]):
            for k, v in readrole.get(b, {}).items():
                out.setdefault(k, v)
        return out

    # constructors and the static functions that forward to them
    E = Eval(P)
    for q in sorted(R):
        rr = inherited(q)

        def match(p):
            n = thing(p)[1]
            if n in rr:
                return rr[n]
            m = [t for t in rr if t.startswith(n) or t.endswith(n)] if len(n) > 3 else []
            return rr[m[0]] if len(m) == 1 else None
        for f in P.lib():
            if f.flag("dep") or f.cls != q or not (f.kind == "ctor" or f.flag("static")):
                continue
            names = {p["n"] for p in f.params}
            subt = set()
            for kind, r, g, n, val, env in events(f, {}):
                if kind != "store" or val is None:
                    continue
                src = {p for fid, p in roots(g, val, env) if fid == f.id and p in names and p not in ("id", "attributes")}
                src = {p for p in src if match(p)}
                if len(src) != 1:
                    continue
                p = next(iter(src))
                c.ob("constructor", match(p) == r, g.loc(n), f"{f.name}:{p}:{len(f.params)}", f"{f.name} stores {p} under role {r}, but it is read from {match(p)}",
                     f"{p}->{r}")
        # subtype
        rn = None
        try:
            rn = E.var(q + "::RuleName")
        except Unknown:
            pass
        if rn is None:
            c.note(f"{q}: RuleName not evaluated")
            continue
        for f in P.lib():
            if f.flag("dep") or f.cls != q or f.kind != "ctor" or len(f.params) < 2:
                continue
            last = None
            for g, n, val in assigns(P, f):
                last = (g, n, val)
            if last:
                g, n, val = last
                try:
                    v = E.raw(g.node(val))
                except Unknown:
                    v = None
                if v is None:
                    c.note(f"{g.loc(n)}: subtype value not evaluated")
                else:
                    c.ob("subtype", v == rn, g.loc(n), f"{f.name}:subtype", f"{q} is stored with subtype {v!r} but registered as {rn!r}", f"{q}={v}")

    # success exactly when something was removed
    seen = set()
    for q in R:
        for th, ms in own[q].items():
            for v, f, evs in ms:
                if v != "remove" or f.ret() != "bool":
                    continue
                for g in {x.id: x for x in [f] + [e[2] for e in evs]}.values():
                    if g.id in seen or g.ret() != "bool" or g.kind == "lambda":
                        continue
                    seen.add(g.id)
                    lits = [n for n in g.all("ReturnStmt") if n.get("c") and const_int(g, n["c"][0]) is not None]
                    if not lits:
                        continue
                    er = [n for n in g.calls() if short(n.get("f", "")) in ("erase", "remove", "pop_back") and "Rule" in g.type(call_obj(g, n) or n) + (n.get("f") or "")
                          or short(n.get("f", "")) == "erase"]
                    eri = {n["i"] for n in er}
                    if not er:
                        continue
                    for n in lits:
                        val = const_int(g, n["c"][0])
                        b = P.where(g, n)
                        if val:
                            p = escape(P, g, None, lambda x: x["i"] in eri, goals={b[0]} if b else None)
                            # reachable without erasing
                            reach = p is not None and b is not None and p[-1] == b[0]
                            first = b is not None and not any(isinstance(e, int) and e in eri for e in g.cfg["blocks"][b[0]]["e"][:b[1] + 1])
                            c.ob("undo", not (reach and first), g.loc(n), f"{g.name}:true", f"{g.name} reports success without having removed anything")
                        else:
                            bad = False
                            for e in er:
                                p = escape(P, g, e, lambda x: x["k"] == "ReturnStmt" and x["i"] != n["i"] and False, goals={b[0]})
                                w = P.where(g, e)
                                if b and w and (w[0] == b[0] and w[1] < b[1] or b[0] in reachset(g, w[0])):
                                    bad = True
                            c.ob("undo", not bad, g.loc(n), f"{g.name}:false", f"{g.name} reports failure after it removed something")

    # role names
    m = P.vars.get("lanelet::RoleNameString::Map")
    enum = P.enums.get("lanelet::RoleName") if isinstance(P.enums, dict) else None
    if m and m.get("init"):
        pairs = []
        for x in wkraw(m["init"]):
            if x["k"] == "CXXConstructExpr" and (x.get("f") or "").startswith("std::pair::") and len(x.get("c", ())) == 2:
                a, b = x["c"]
                qa = [(y.get("d") or {}).get("n", "") for y in wkraw(a) if y["k"] == "DeclRefExpr"]
                qb = [(y.get("d") or {}).get("n", "") for y in wkraw(b) if y["k"] == "DeclRefExpr"]
                if qa and qb:
                    pairs.append((qa[0], qb[0]))
        vals = {}
        for a, b in pairs:
            try:
                s = E.var(a)
            except Unknown:
                s = a
            c.ob("names", a.split("::")[-1] == b.split("::")[-1], "lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h", f"map:{b}",
                 f"role {b} is mapped to the name of {a}", f"{b}={s!r}")
            vals.setdefault(s, set()).add(b)
        for s, l in vals.items():
            c.ob("names", len(l) == 1, "RoleNameString::Map", f"name:{s}", f"name {s!r} stands for {sorted(l)}")
        have = {b for a, b in pairs}
        if enum:
            for e in enum_names(enum):
                c.ob("names", ROLE + e in have, "RoleNameString::Map", f"enum:{e}", f"role {e} has no name")
        for q in P.vars:
            if q.startswith(ROLES) and not q.endswith("::Map"):
                pass
    else:
        c.note("RoleNameString::Map not found")

    # pairing by position
    for q in R:
        for f in P.lib():
            if f.cls != q or f.flag("dep"):
                continue
            for n in f.calls():
                if short(n.get("f", "")) != "distance":
                    continue
                a = list(call_args(f, n))
                src = base_list(P, f, a[0]) if a else None
                if src is None:
                    continue
                filt = filtered(P, f, src)
                for m in f.calls():
                    if short(m.get("f", "")) in ("at", "operator[]") and any(x["i"] == n["i"] for y in call_args(f, m) if y is not None for x in wk(f, f.node(y))):
                        o = root_var(f, call_obj(f, m)) if call_obj(f, m) is not None else None
                        c.ob("pairing", not filt, f.loc(m), f"{f.name}:{f.flag('const')}",
                             f"{f.name}: the position is found in a list without expired entries but used for a list that still has all entries")
    # answers
    for q in R:
        for f in P.lib():
            if f.cls != q or f.flag("dep") or not re.search(r"\bManeuverType\b", f.ret()):
                continue
            for n in f.all("ReturnStmt"):
                k = P.key(f, n["c"][0]) if n.get("c") else ""
                mm = re.search(r"ManeuverType::(\w+)", k)
                if not mm:
                    continue
                st = P.state_at(f, n) or ()
                yes, no = set(), set()
                for x in st:
                    if x[0] == "true":
                        for th, r in readrole[q].items():
                            if re.search(r"\b" + th + r"s?\(", x[1].lower()):
                                (yes if x[2] else no).add(r)
                if mm.group(1) in set(readrole[q].values()):
                    c.ob("answers", mm.group(1) in yes, f.loc(n), f"{f.name}:{mm.group(1)}", f"{mm.group(1)} is answered when the lanelet is in {sorted(yes)}") if yes else c.note(f"{f.loc(n)}: answer not decided")


def wk(f, n):
    n = f.node(n)
    yield n
    for x in kids(n):
        yield from wk(f, x)


def wkraw(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(y for y in x.get("c", ()) if y is not None)


def enum_names(e):
    e = e if isinstance(e, dict) else e[0]
    vs = e.get("vals") or e.get("enumerators") or e.get("c") or []
    return [(v.get("n") if isinstance(v, dict) else v[0]).split("::")[-1] for v in vs]


def reachset(g, b):
    out, st = set(), [b]
    while st:
        x = st.pop()
        for s in g.cfg["blocks"][x]["s"]:
            if s is not None and s not in out:
                out.add(s)
                st.append(s)
    return out


def assigns(P, f, depth=0, seen=None):
    """assignments attributes[Subtype] = value executed by a constructor through its data builders, in order"""
    seen = seen if seen is not None else set()
    if f.id in seen or depth > 5:
        return
    seen.add(f.id)
    own, sub = [], []
    for n in sorted(f.nodes.values(), key=lambda x: x["i"]):
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["c"]) == 3:
            l = P.key(f, n["c"][1])
            if re.search(r"attributes\S*\[?.*Attribute(Name|NamesString)::Subtype", l) or ("attributes" in l and "Subtype" in l) or l.endswith("['subtype']"):
                own.append((f, n, n["c"][2]))
    for n in f.calls():
        for g in P.targets(n):
            if g.ret().find("RegulatoryElementData") >= 0 or g.kind == "ctor":
                if "/lanelet2_" in "/" + g.loc():
                    yield from assigns(P, g, depth + 1, seen)
    yield from own


def base_list(P, f, n):
    n = unwrap(f, f.node(n))
    if n is not None and n["k"] in CALLS and short(n.get("f", "")) in ("begin", "cbegin"):
        o = call_obj(f, n)
        return unwrap(f, o) if o is not None else None
    return None


def filtered(P, f, n, depth=0):
    """does the list come from an operation that leaves out entries (expired references)?"""
    n = unwrap(f, f.node(n))
    if n is None or depth > 4:
        return False
    v = (n.get("d") or {}).get("id") if n["k"] == "DeclRefExpr" else None
    if v:
        d = f.vardef(v)
        return d is not None and filtered(P, f, d, depth + 1)
    if n["k"] in CALLS:
        for g in P.targets(n):
            for m in g.calls():
                s = short(m.get("f", ""))
                if s == "strong":
                    return True
                if s == "getParameters" and re.search(r"Const(Lanelet|Area)>", g.type(m)):
                    return True
            if short(g.name) == "strong":
                return True
    if n["k"] in ("CXXConstructExpr",) and len(n.get("c", ())) == 1:
        return filtered(P, f, n["c"][0], depth + 1)
    return False
