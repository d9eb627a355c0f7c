"""C07: every kind of rule parameter is handled, and expired references are never used."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from .V01 import bases
from .V02 import wk

KINDS = {"Point3d": "point", "LineString3d": "line string", "Polygon3d": "polygon", "WeakLanelet": "lanelet", "WeakArea": "area"}
WEAK = ("lanelet::ConstWeakLanelet", "lanelet::ConstWeakArea", "lanelet::WeakLanelet", "lanelet::WeakArea")


def bare(t):
    t = re.sub(r"\b(const|class|struct)\b", "", t or "").replace("&", "").replace("*", "").strip()
    return t


def kind_of(t):
    t = bare(t)
    if not t.startswith("lanelet::"):
        return None
    t = t[len("lanelet::"):]
    return KINDS.get(t[5:] if t.startswith("Const") else t)


def weak_type(t):
    return bare(t) in WEAK


def last(q):
    return (q or "").rsplit("::", 1)[-1]


def run(c):
    P = c.program("core", "io", "traffic_rules", "routing", "validation", "matching", "projection", "python", "wit_rules")
    lib = P.lib()

    # -------------------------------------------------- visitors over rule parameters
    vis, variants = {}, set()
    for f in lib:
        if f.short == "operator()" and len(f.params) == 1 and f.cls and not f.flag("lambda") and "RuleParameterVisitor" != last(f.cls) \
                and "(lambda)" not in f.cls:
            k = kind_of(f.ptype(f.params[0]))
            if k and not f.flag("tinst"):
                vis.setdefault(f.cls, {})[k] = f
    roots = {q for q in P.recbyname if last(q) in ("RuleParameterVisitor", "MutableParameterVisitor")}

    def derives(q):
        r = P.recbyname.get(q)
        r = r if isinstance(r, dict) else (r[0] if r else None)
        return r is not None and bool(roots & set(bases(P, r)) - {q}) and q not in roots
    for q in P.recbyname:
        if "lanelet::" in q and derives(q):
            vis.setdefault(q, {})
    # other class templates with one operator() for all kinds (boost::static_visitor) are exhaustive by construction;
    # hash/functor classes that are not applied to variants are no visitors
    applied = set()
    for f in lib:
        for n in f.calls():
            if last(n.get("f", "")) in ("apply_visitor", "applyVisitor"):
                for a in call_args(f, n):
                    a = f.node(a)
                    t = bare(f.type(a)) if a is not None else None
                    if t:
                        applied.add(t)
                for x in n["c"]:
                    x = unwrap(f, f.node(x))
                    if x is not None and x["k"] == "UnaryOperator":
                        applied.add(bare(f.cls or ""))
    visitors = {q: m for q, m in vis.items() if derives(q) or q in applied or any(last(a) == last(q) for a in applied)}
    visitors = {q: m for q, m in visitors.items() if not any(x.flag("tinst") for x in m.values()) and "converters::" not in q}
    if len(visitors) < 3:
        raise AnalysisBroken("visitors over rule parameters not found")

    def does(f, depth=0, seen=()):
        """(data member, what is done with it) for everything a method does with the members of its class"""
        out = set()
        if f is None or depth > 3 or f.id in seen:
            return out
        for n in f.nodes.values():
            if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and str(n.get("op", "")).endswith("=") and n.get("op") not in ("==", "!=", "<=", ">="):
                l = unwrap(f, f.node(n["c"][0]))
                if l["k"] == "MemberExpr" and l.get("c") and unwrap(f, f.node(l["c"][0]))["k"] == "CXXThisExpr":
                    out.add((last(l["m"]), "updated" if n["op"] != "=" or keeps_old(f, n, l["m"]) else "set"))
            elif n["k"] in CALLS:
                o = call_obj(f, n)
                o = unwrap(f, f.node(o)) if o is not None else None
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("=", "+=", "|=", "[]", "<<") and o is None and len(n.get("c", ())) > 1:
                    o = unwrap(f, f.node(n["c"][1]))
                if o is not None and n.get("op") in ("->", "*"):
                    continue
                what = n.get("op") or last(n.get("f", ""))
                if n.get("fconst") or what in ("at", "begin", "end", "find", "front", "back", "data"):
                    continue
                m = o
                while m is not None and (m["k"] in ("MemberExpr", "CXXOperatorCallExpr") and m.get("c")):
                    if m["k"] == "MemberExpr":
                        b = unwrap(f, f.node(m["c"][0]))
                        if b["k"] == "CXXThisExpr":
                            out.add((last(m["m"]), what))
                            break
                        m = b
                    elif m.get("op") in ("->", "*"):
                        m = unwrap(f, f.node(m["c"][1]))
                    else:
                        break
                # functions of the visitor itself, and free helpers that get one of its members
                if o is None or o["k"] == "CXXThisExpr":
                    if o is not None and n["k"] == "CXXMemberCallExpr":
                        for g in P.targets(n):
                            out |= does(g, depth + 1, seen + (f.id,))
                    elif n["k"] == "CallExpr":
                        # a free helper that may change something a member refers to
                        for g in P.targets(n)[:1]:
                            for a, p in zip(call_args(f, n), g.params):
                                t = g.ptype(p)
                                if "&" in t and "&&" not in t and "const" not in t.split("<")[0]:
                                    for x in wk(f, a):
                                        if x["k"] == "MemberExpr" and x.get("c") and unwrap(f, f.node(x["c"][0]))["k"] == "CXXThisExpr":
                                            out.add((last(x["m"]), last(n.get("f", ""))))
        return out

    c.rule("kinds", "an operation over the parameters of a regulatory element handles points, line strings, polygons, lanelets and areas", 7)
    c.rule("alike", "it does the same with each of them: what it does to its result for most kinds it does for all", 5)
    allk = set(KINDS.values())
    for q, m in sorted(visitors.items()):
        loc = min((f.loc() for f in m.values()), default=q)
        have = {k for k, f in m.items() if f.nodes and any(n["k"] not in ("CompoundStmt", "NullStmt", "ReturnStmt") for n in f.nodes.values())}
        # what only concerns the two kinds of weak references (keeping them alive)
        keeps = have and have <= {"lanelet", "area"} and any(
            n["k"] in CALLS and last(n.get("f", "")) in ("emplace_back", "push_back", "insert", "emplace") for f in m.values() for n in f.nodes.values())
        want = {"lanelet", "area"} if keeps else allk
        c.ob("kinds", have >= want, loc, q, "%s does nothing with parameters that are %s" % (q, ", ".join(sorted(want - have)) or "-"), sample=q)
        acts = {k: does(m[k]) for k in have}
        if len(acts) < 2:
            continue
        cnt = {}
        for s in acts.values():
            for x in s:
                cnt[x] = cnt.get(x, 0) + 1
        common = {x for x, k in cnt.items() if k * 2 > len(acts)}
        if not common:
            c.note("not compared: the cases of %s have nothing in common" % q)
            continue
        for k, s in sorted(acts.items()):
            c.ob("alike", common <= s, m[k].loc(), "%s:%s" % (q, k),
                 "%s does not do %s for a %s as it does for the other kinds" % (q, ", ".join("%s %s" % x for x in sorted(common - s)), k), sample="%s %s" % (q, k))

    # -------------------------------------------------- every parameter is visited
    c.rule("all", "whoever visits the parameters of a regulatory element visits every one: the loops have no way around the visit", 1)
    for f in lib:
        for n in f.calls():
            if last(n.get("f", "")) != "apply_visitor" or len(call_args(f, n)) < 2:
                continue
            a = call_args(f, n)[1]
            t = f.type(f.node(a)) or ""
            if "WeakArea" not in t and "RuleParameter" not in t:
                continue
            ls = [l for l in loops(f) if any(x["i"] == n["i"] for x in wk(f, l))]
            if not ls:
                continue
            bad = None
            for l in ls:
                body = body_of(f, l)
                if any(True for _ in early_exits(f, l)):
                    bad = "a way out of the loop before the last parameter"
                for x in wk(f, body):
                    if x["k"] in ("ContinueStmt",):
                        bad = "a parameter that is skipped"
                p = n
                while p is not None and p["i"] != l["i"]:
                    p = f.parent(p)
                    if p is not None and p["k"] in ("IfStmt", "SwitchStmt", "ConditionalOperator") and any(y["i"] == p["i"] for y in wk(f, l)):
                        bad = "a condition that leaves parameters out"
            c.ob("all", bad is None, f.loc(n), "%s:%s" % (f.name, "visit"), "%s has %s" % (f.name, bad), sample=f.name)

    # -------------------------------------------------- expired references
    c.rule("expired", "a weak reference to a lanelet or area is only locked where it is known to be alive", 12)
    c.rule("report", "writing a map reports a reference that no longer exists instead of leaving it out silently", 2)
    seen = set()
    for f in lib:
        if f.cls in WEAK:
            continue
        for n in f.calls():
            q = n.get("f") or ""
            if last(q) != "lock" or not any(q.startswith(w + "::") for w in WEAK):
                if not (last(q) == "lock" and "weak_ptr" in q and f.cls not in WEAK):
                    continue
            o = call_obj(f, n)
            if o is None:
                continue
            k = P.key(f, o)
            if "weak_ptr" in q:
                # a raw weak pointer: the result may be empty, but has to be compared or checked before use
                ok = any(x[0] == "expired" and not x[2] for x in (P.state_at(f, n) or ()))
            else:
                ok = k is not None and any(x[0] == "expired" and x[1] == k and not x[2] for x in (P.state_at(f, n) or ()))
            if not ok and caught(f, n):
                ok = True
            if "weak_ptr" in q and not ok:
                continue
            key = (f.loc(n), k)
            if key in seen and ok:
                continue
            seen.add(key)
            c.ob("expired", ok, f.loc(n), "%s:%s" % (f.name, last(q)),
                 "%s uses the %s without knowing that it still exists" % (f.name, last(bare(f.type(f.node(o))))), sample="%s %s" % (f.loc(n), f.name))
    c.analysed["weak references locked"] = len(seen)

    # a comparison or search predicate never matches something that does not exist any more
    c.rule("match", "comparing or searching never finds a reference that no longer exists", 3)
    for f in lib:
        if f.ret() != "bool" or f.short == "expired" or f.flag("tpl") and not f.nodes or f.loc() in seen:
            continue
        ks = {P.key(f, call_obj(f, n)) for n in f.calls() if last(n.get("f", "")) == "lock" and call_obj(f, n) is not None
              and any(n["f"].startswith(w + "::") for w in WEAK)} - {None}
        for k in sorted(ks):
            ok = P.returns_imply(f, True, lambda x: x[0] == "expired" and not x[2] and x[1] == k)
            c.ob("match", ok, f.loc(), f.name, "%s can be true for a reference that no longer exists" % f.name, sample=f.name)

    # a branch for the expired case in code that writes maps: error reported
    for f in lib:
        if "lanelet2_io/" not in f.loc():
            continue
        for n in f.calls():
            q = n.get("f") or ""
            if last(q) != "expired" or not any(q.startswith(w + "::") for w in WEAK):
                continue
            p, neg = f.parent(n), False
            while p is not None and p["k"] in ("ParenExpr", "UnaryOperator", "ExprWithCleanups"):
                neg ^= p["k"] == "UnaryOperator" and p.get("op") == "!"
                p = f.parent(p)
            if p is None or p["k"] != "IfStmt":
                c.note("not decided: what happens to an expired reference at " + f.loc(n))
                continue
            ch = [x for x in p["c"] if x is not None]
            br = None
            body = [x for x in ch if not any(y["i"] == n["i"] for y in wk(f, x))]
            if not neg:
                br = body[0] if body else None
            else:
                br = body[1] if len(body) > 1 else None
            ok = br is not None and reports(P, f, br)
            if neg and br is None:
                # if (!expired) { ...; return; }  report
                ok = any(reports(P, f, x) for x in siblings_after(f, p))
            c.ob("report", ok, f.loc(n), f.name, "%s drops a reference that no longer exists without a word" % f.name, sample=f.name)

    # -------------------------------------------------- get<T>(&param)
    c.rule("which", "a parameter is used as one particular kind only where it is known to be of that kind", 5)
    seen = set()
    for f in lib:
        for n in f.nodes.values():
            if n["k"] == "UnaryOperator" and n.get("op") == "*":
                o = n["c"][0]
            elif n["k"] == "MemberExpr" and n.get("arrow") and n.get("c"):
                o = n["c"][0]
            else:
                continue
            k = P.key(f, o)
            t = f.type(f.node(o)) or ""
            if k is None or not t.rstrip().endswith("*"):
                continue
            if not re.match(r"(\w+::)*get\(&", k):
                continue
            st = P.state_at(f, n) or ()
            ok = any(x[0] in ("true",) and x[1] == k and x[2] for x in st)
            key = (f.loc(n), k)
            if key in seen and ok:
                continue
            seen.add(key)
            c.ob("which", ok, f.loc(n), "%s:%s" % (f.name, short(k)),
                 "%s uses a parameter as %s without knowing that it is one" % (f.name, bare(t)), sample="%s %s" % (f.loc(n), f.name))

    # -------------------------------------------------- data pointers
    c.rule("null", "a primitive cannot be built from a reference to data that does not exist any more", 2)
    for f in lib:
        if f.kind != "ctor" or not f.params or last(re.sub(r"<.*", "", f.cls or "")) not in ("ConstPrimitive", "Primitive"):
            continue
        t = f.ptype(f.params[0])
        if "shared_ptr" not in t or f.flag("deleted") or f.flag("tpl") and not f.nodes:
            continue
        if f.loc() in seen:
            continue
        seen.add(f.loc())
        thr = [n for n in f.nodes.values() if n["k"] == "CXXThrowExpr"]
        pid = f.params[0]["id"]
        ok = False
        for th in thr:
            for x in P.state_at(f, th) or ():
                if x[0] == "true" and not x[2] and x[1].startswith("v:" + f.params[0]["n"]):
                    ok = True
        c.ob("null", ok, f.loc(), f.cls, "%s accepts data that does not exist" % f.cls, sample=f.name)

    # -------------------------------------------------- python: every alternative of an exposed variant has a converter
    c.rule("python", "python code can read every kind of parameter: each alternative of an exposed parameter type is converted or a class", 10)
    conv, exposed = set(), {}
    for f in lib:
        if "lanelet2_python" not in f.loc():
            continue
        for n in f.nodes.values():
            if n["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                continue
            t = f.type(n) or ""
            m = re.match(r"(?:const )?boost::python::(to_python_converter|class_)<(.*)", t)
            if not m:
                continue
            a = split_args(m.group(2))
            if not a:
                continue
            conv.add(bare(a[0]))
            if m.group(1) == "to_python_converter" and "boost::variant<" in a[0] and "WeakArea" in a[0]:
                exposed[a[0]] = f.loc(n)
    for t, loc in sorted(exposed.items()):
        for alt in split_args(re.search(r"variant<(.*)", t).group(1)):
            c.ob("python", bare(alt) in conv, loc, bare(alt), "python can not read a parameter that is a %s" % bare(alt), sample=bare(alt))


def split_args(s):
    """template arguments up to the closing bracket"""
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<" or ch == "(":
            d += 1
        if ch == ">" or ch == ")":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


def keeps_old(f, n, m):
    """an assignment whose new value, or whether it happens, depends on the old value (or that can only set a flag)"""
    r = unwrap(f, f.node(n["c"][1]))
    if r is not None and r["k"] == "CXXBoolLiteralExpr":
        return bool(r.get("v"))
    parts = [r]
    p, prev = f.parent(n), n
    while p is not None:
        if p["k"] in ("IfStmt", "ConditionalOperator"):
            parts += [x for x in p["c"] if x is not None and f.node(x)["i"] != prev["i"]][:1]
        prev, p = p, f.parent(p)
    return any(x["k"] == "MemberExpr" and x.get("m") == m for y in parts if y is not None for x in wk(f, y))


def caught(f, n):
    """inside a try block that catches what the constructor throws for data that does not exist"""
    p = f.parent(n)
    prev = n
    while p is not None:
        if p["k"] == "CXXTryStmt" and p.get("c") and f.node(p["c"][0])["i"] == prev["i"]:
            return True
        prev, p = p, f.parent(p)
    return False


def reports(P, f, br, depth=0):
    for x in wk(f, br):
        if x["k"] == "CXXThrowExpr":
            return True
        if x["k"] in CALLS:
            if "rror" in last(x.get("f", "")) and "std::" not in x.get("f", ""):
                return True
            if depth < 2:
                for g in P.targets(x):
                    if g.nodes and g.cfg is not None and any(y["k"] == "CXXThrowExpr" for y in g.nodes.values()) and len(g.nodes) < 60:
                        return True
    return False


def siblings_after(f, p):
    q = f.parent(p)
    if q is None or q["k"] != "CompoundStmt":
        return []
    ids = [f.node(x)["i"] for x in q["c"]]
    return [f.node(x) for x in q["c"][ids.index(p["i"]) + 1:]]
