"""C10: objects never start with indeterminate content."""
from ..core import *
from ..core import rpo

SC = ("builtin", "ptr", "enum", "array")
GROUPS = ("core", "io", "projection", "traffic_rules", "routing", "matching", "validation", "python", "wit")


def fields_of(P, rec):
    return rec["fields"]


def uninit(P):
    """record type -> names of members left indeterminate by its implicit or defaulted default constructor"""
    U = {}
    ty = {r["type"]: r for r in P.records.values()}
    ch = True
    while ch:
        ch = False
        for r in P.records.values():
            if r.get("dep") or r["type"] in U:
                continue
            if defaulted(P, r) is False:
                continue
            bad = []
            for f in r["fields"]:
                if f.get("init"):
                    continue
                if f["cat"] in SC:
                    bad.append(f["n"])
                elif f["cat"] == "class" and r["_types"][f["t"]].replace("const ", "") in U:
                    bad.append(f["n"])
            for b in r["bases"]:
                if b["t"] in U:
                    bad.append(b["t"])
            if bad:
                U[r["type"]] = bad
                ch = True
    return U


def ctors(P, r):
    for m in r.get("methods", ()):
        d = P.fdecls.get(m)
        if d is not None and d[0].get("kind") == "ctor":
            yield d[0]


def defaulted(P, r):
    """does the class have an implicit or defaulted default constructor"""
    if not r.get("userctor"):
        return True
    for d in ctors(P, r):
        if not d["params"] and d.get("defaulted") and not d.get("deleted"):
            return True
    return False


def assigned(P, f, want_field=None):
    """definite assignment over a constructor body: members assigned on every path to the exit"""
    cfg = f.cfg
    if not cfg:
        return set()
    IN = {cfg["entry"]: frozenset()}
    order = rpo(cfg)
    ch = True
    res = None
    while ch:
        ch = False
        for b in order:
            if b not in IN:
                continue
            s = set(IN[b])
            blk = cfg["blocks"][b]
            thrown = False
            for x in blk["e"]:
                n = f.nodes.get(x) if isinstance(x, int) else None
                if n is None:
                    continue
                if n["k"] == "CXXThrowExpr":
                    thrown = True
                for t in modified_targets(f, n):
                    u = unwrap(f, t)
                    k = P.key(f, u)
                    if k.startswith("this."):
                        s.add(k.split(".")[1].split("[")[0])
                if n["k"] in CALLS:
                    o = call_obj(f, n)
                    if o is not None and P.key(f, o) == "this":
                        for g in P.targets(n):
                            if g.cfg and g.kind == "method" and g.id != f.id:
                                s |= assigned(P, g)
            if thrown:
                continue
            for t in blk["s"]:
                if t is None:
                    continue
                if t == cfg["exit"]:
                    pass
                o = IN.get(t)
                v = frozenset(s) if o is None else o & s
                if v != o:
                    IN[t] = v
                    ch = True
    return set(IN.get(cfg["exit"], ()))


def locals_(P, c, U, seen):
    nloc = 0
    for f in P.lib():
        if f.flag("dep") or not f.cfg:
            continue
        vs = {}
        for n in f.all("DeclStmt"):
            for v in n.get("vars", ()):
                if v.get("static"):
                    continue
                t = f.types[v["t"]] if isinstance(v["t"], int) and v["t"] >= 0 else ""
                i = f.node(v["init"]) if v.get("init") is not None else None
                if i is None:
                    if scalar(t):
                        vs[v["id"]] = (None, v, n)
                elif i["k"] == "CXXConstructExpr" and not i.get("c") and not i.get("list") and t in U:
                    vs[v["id"]] = (U[t], v, n)
        if not vs:
            continue
        nloc += len(vs)
        check_locals(P, c, f, vs, seen)
    return nloc


def scalar(t):
    if "&" in t or "(" in t or "[" in t:
        return False
    t = t.replace("const ", "").strip()
    return t in ("bool", "int", "unsigned int", "long", "unsigned long", "double", "float", "char", "short", "unsigned short", "size_t",
                 "long long", "unsigned long long") or t.endswith("*") or "LaneChangeType" in t


def check_locals(P, c, f, vs, seen):
    cfg = f.cfg
    order = rpo(cfg)
    IN = {cfg["entry"]: frozenset()}
    bad = {}

    def classify(n):
        """how the reference n to a tracked variable is used: ('w', field) | ('r', field) | ('e', None) escape"""
        p = f.parent(n)
        cur = n
        fld = None
        while p is not None:
            if p["k"] == "ParenExpr":
                cur, p = p, f.parent(p)
                continue
            if p["k"] == "MemberExpr" and fld is None and p.get("c") and f.node(p["c"][0]) is f.node(cur):
                fld = short(p.get("m") or "")
                cur, p = p, f.parent(p)
                continue
            break
        if p is None:
            return ("e", fld)
        if p["k"] == "BinaryOperator":
            return ("=", fld) if p.get("op") == "=" and f.node(p["c"][0]) is f.node(cur) else ("e", fld) if p.get("op") == "," else ("r", fld)
        if p["k"] in ("CompoundAssignOperator", "InitListExpr", "IfStmt", "WhileStmt", "SwitchStmt", "ForStmt"):
            return ("r", fld)
        if p["k"] == "UnaryOperator":
            return ("e", fld) if p.get("op") == "&" else ("r", fld)
        if p["k"] == "CXXOperatorCallExpr" and p.get("op") == "=" and f.node(p["c"][1]) is f.node(cur):
            return ("=", fld)
        if p["k"] == "ReturnStmt":
            return ("e", fld) if "&" in f.ret() else ("r", fld)
        if p["k"] == "DeclStmt":
            for v in p.get("vars", ()):
                if v.get("init") is not None and f.node(v["init"]) is f.node(cur):
                    return ("e", fld) if "&" in f.types[v["t"]] else ("r", fld)
            return ("e", fld)
        if p["k"] in CALLS:
            for a, m in zip(call_args(f, p), p.get("pm", "")):
                if f.node(a) is f.node(cur):
                    return ("e", fld) if m == "n" or m == "c" and scalar(f.type(f.node(n))) is False and fld is None and False else \
                        ("r", fld) if m in ("v", "c") else ("e", fld)
        return ("e", fld)

    ch = True
    it = 0
    while ch and it < 60:
        ch = False
        it += 1
        for b in order:
            if b not in IN:
                continue
            s = set(IN[b])
            for x in cfg["blocks"][b]["e"]:
                n = f.nodes.get(x) if isinstance(x, int) else None
                if n is None:
                    continue
                if n["k"] == "DeclStmt":
                    for v in n.get("vars", ()):
                        if v["id"] in vs:
                            s = {q for q in s if q[0] != v["id"]}
                if n["k"] == "DeclRefExpr" and n.get("d", {}).get("id") in vs:
                    vid = n["d"]["id"]
                    u, fld = classify(n)
                    fl = vs[vid][0]
                    need = [None] if fl is None else ([fld] if fld in fl else [] if fld is not None else list(fl))
                    if u == "r":
                        for q in need:
                            if (vid, q) not in s:
                                bad.setdefault((vid, q), n)
                            else:
                                pass
                    elif u == "e":
                        for q in ([None] if fl is None else (fl if fld is None else [fld])):
                            s.add((vid, q))
                elif n["k"] == "BinaryOperator" and n.get("op") == "=":
                    l = n["c"][0]
                    r = unwrap(f, l)
                    fld = None
                    if r is not None and r["k"] == "MemberExpr" and r.get("c"):
                        fld = short(r.get("m") or "")
                        r = unwrap(f, r["c"][0])
                    if r is not None and r["k"] == "DeclRefExpr" and r.get("d", {}).get("id") in vs:
                        s.add((r["d"]["id"], fld))
                elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["c"]) == 3:
                    r = unwrap(f, n["c"][1])
                    if r is not None and r["k"] == "DeclRefExpr" and r.get("d", {}).get("id") in vs:
                        for q in vs[r["d"]["id"]][0] or [None]:
                            s.add((r["d"]["id"], q))
                elif n["k"] == "LambdaExpr":
                    for y in walk(n):
                        y = f.node(y)
                        if y["k"] == "DeclRefExpr" and y.get("d", {}).get("id") in vs:
                            for q in vs[y["d"]["id"]][0] or [None]:
                                s.add((y["d"]["id"], q))
                    for g in P.lambdas(n):
                        for y in g.all("DeclRefExpr"):
                            if y.get("d", {}).get("id") in vs:
                                for q in vs[y["d"]["id"]][0] or [None]:
                                    s.add((y["d"]["id"], q))
            for t in cfg["blocks"][b]["s"]:
                if t is None:
                    continue
                o = IN.get(t)
                v = frozenset(s) if o is None else o & s
                if v != o:
                    IN[t] = v
                    ch = True
    # one final pass with the fixed point decides reads (bad may hold reads seen with an intermediate, larger state only)
    for vid, (fl, v, n) in vs.items():
        b = [(q, m) for (i, q), m in bad.items() if i == vid]
        key = f"{f.name}|{v['n']}"
        if (key, f.loc(n)) in seen and not b:
            continue
        seen.add((key, f.loc(n)))
        c.ob("local-init", not b, f.loc(b[0][1] if b else n), key,
             f"{f.name}: '{v['n']}{'.' + b[0][0] if b and b[0][0] else ''}' may be read before it has been given a value", v["n"])


def run(c):
    P = c.program(*GROUPS)
    c.rule("ctor-init", "every constructor with a body gives every built-in, enumeration or pointer member a value (initialiser or "
           "assignment on every path)", 10)
    c.rule("default-init", "implicit and defaulted default constructors leave no built-in, enumeration or pointer member without "
           "initialiser (records without constructors outside the public headers: see local-init)", 20)
    c.rule("local-init", "local variables and records without initialisers are assigned on every path before they are read", 2)
    U = uninit(P)
    byty = {}
    for r in P.records.values():
        byty.setdefault(r["name"], []).append(r)
    done = set()
    for r in P.records.values():
        if r.get("dep") or r["type"] in done or not r["file"].startswith("/repo/"):
            continue
        done.add(r["type"])
        sc = [f for f in r["fields"] if f["cat"] in SC or f["cat"] == "class" and r["_types"][f["t"]].replace("const ", "") in U]
        if not sc:
            continue
        where = r["file"][6:] + f":{r['line']}"
        if defaulted(P, r):
            public = "/include/" in r["file"] and "/impl/" not in r["file"] and "/internal/" not in r["file"] and "::internal::" not in r["name"] \
                and "::detail::" not in r["name"] and not r.get("anon")
            agg = not r.get("userctor") and r.get("aggregate")
            if not agg or public:
                bad = [f["n"] for f in sc if not f.get("init")]
                c.ob("default-init", not bad, where, r["name"], f"a default constructed {r['name']} has indeterminate members: {', '.join(bad)}",
                     r["name"])
    seen = set()
    recs = {}
    for r in P.records.values():
        recs.setdefault(r["type"], r)
    for f in P.lib():
        if f.kind != "ctor" or f.flag("dep") or f.flag("delegating") or f.flag("defaulted") or f.flag("inheriting"):
            continue
        r = recs.get(f.d.get("clst"))
        if r is None:
            continue
        sc = [x for x in r["fields"] if x["cat"] in SC or x["cat"] == "class" and r["_types"][x["t"]].replace("const ", "") in U]
        if not sc:
            continue
        ini = {}
        for i in f.d.get("inits") or ():
            if i.get("m"):
                ini[short(i["m"])] = i
        bodyset = None
        for x in sc:
            if x.get("init"):
                continue
            i = ini.get(x["n"])
            ok = False
            if i is not None and i.get("e") is not None:
                e = f.node(i["e"])
                ok = not (x["cat"] == "class" and e["k"] == "CXXConstructExpr" and not e.get("c") and not i.get("written"))
                if x["cat"] != "class" and not i.get("written"):
                    ok = e["k"] not in ("CXXConstructExpr",)
            elif i is not None and i.get("written"):
                ok = True
            if not ok:
                if bodyset is None:
                    bodyset = assigned(P, f)
                ok = x["n"] in bodyset
            key = f"{f.cls}|{len(f.params)}|{x['n']}"
            if (key, ok) in seen:
                continue
            seen.add((key, ok))
            c.ob("ctor-init", ok, f.loc(), key, f"a constructor of {f.cls} leaves '{x['n']}' without a value", key)
    c.analysed["tracked_locals"] = locals_(P, c, U, set())
    c.analysed["records_with_plain_members"] = len(U)
