"""C11: equal objects hash equally, inequality is the exact negation of equality, comparison looks at all that matters."""
import re
from ..core import *
from .V02 import wk

INDEX = {"lanelet::HybridMap::v_"}      # derived index of m_ (C06)


def last(q):
    return q.rsplit("::", 1)[-1]


def records(P, t):
    """record of type t and its bases"""
    t = re.sub(r"^const |[ &]*$", "", t)
    out, todo = [], [t]
    while todo:
        q = todo.pop()
        r = P.recbyname.get(re.sub(r"<.*", "", q))
        m = re.match(r"lanelet::(?:Primitive|LineStringImpl)<(.*)>$", q)
        if m:
            todo.append(m.group(1))
        for x in (r if isinstance(r, list) else [r] if r else [])[:1]:
            if x not in out:
                out.append(x)
                todo += [(b.get("t") or b.get("n", "")) if isinstance(b, dict) else b for b in x.get("bases", ())]
    return out


def fieldtype(r, f):
    t = f["t"]
    return r["_types"][t] if isinstance(t, int) else t


def reads(P, f, n, depth=0, seen=None):
    """qualified names of the data members read when n is evaluated"""
    seen = set() if seen is None else seen
    out = set()
    for x in (wk(f, n) if n is not None else f.nodes.values()):
        if x["k"] == "MemberExpr" and x.get("m"):
            out.add(re.sub(r"<.*?>", "", x["m"]))
        if x["k"] in CALLS and depth < 6:
            for t in P.targets(x):
                if t.id not in seen and not t.flag("dep"):
                    seen.add(t.id)
                    out |= reads(P, t, None, depth + 1, seen)
        for l in P.lambdas(x):
            if l.id not in seen:
                seen.add(l.id)
                out |= reads(P, l, None, depth + 1, seen)
    return out


def run(c):
    P = c.program("core", "io", "routing", "wit_eq")
    lib = [f for f in P.lib() if not f.flag("dep") and "/test/" not in f.loc()]

    def operands(f):
        if f.kind == "method" and not f.flag("static"):
            return ["this", "v:" + f.params[0]["n"]]
        return ["v:" + p["n"] for p in f.params[:2]]

    def norm(k):
        return re.sub(r"#\d+:\d+", "", k)

    def mirror(k, a, b):
        t = "v:\u00a7swap"
        sub = lambda s, x, y: re.sub(r"(?<![\w.:])%s\b" % re.escape(x), y, s)
        return sub(sub(sub(k, a, t), b, a), t, b)

    def parts(key):
        """the two sides of an eq key (split at the top level '==')"""
        d = 0
        for i, ch in enumerate(key):
            d += ch in "([{" or 0
            d -= ch in ")]}" or 0
            if d == 0 and key.startswith("==", i):
                return key[:i], key[i + 2:]
        return None

    def atoms(f):
        """comparisons made in f: (node, operand nodes)"""
        for n in f.nodes.values():
            if n["k"] == "BinaryOperator" and n.get("op") in ("==", "!="):
                yield n, n["c"][0], n["c"][1]
            elif n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("==", "!=") and len(n["c"]) == 3:
                yield n, n["c"][1], n["c"][2]

    def eqfact(f, a, b):
        ka, kb = norm(P.key(f, f.node(a))), norm(P.key(f, f.node(b)))

        def pred(x):
            if x[0] != "eq" or not x[2]:
                return False
            k = norm(x[1])
            return k == f"{ka}=={kb}" or k == f"{kb}=={ka}"
        return pred, ka, kb

    def local_sub(f, k):
        """replace locals by their initialisers"""
        for _ in range(3):
            m = False
            for n in f.all("DeclStmt"):
                for v in n.get("vars", ()):
                    if v.get("init") is not None and re.search(r"(?<![\w.:])v:%s\b" % re.escape(v["n"]), k):
                        k = re.sub(r"(?<![\w.:])v:%s\b" % re.escape(v["n"]), lambda _: "(" + norm(P.key(f, f.node(v["init"]))) + ")", k)
                        m = True
            if not m:
                break
        return k

    c.rule("mirror", "a comparison compares the same part of both objects", 20)
    c.rule("conjunction", "two objects are equal only if every part that the comparison looks at is equal", 20)
    c.rule("negation", "inequality is the exact negation of equality", 15)
    c.rule("covers", "comparison looks at every part of an object that makes it a different object", 25)
    c.rule("hash", "the hash depends only on parts that the comparison also looks at", 15)
    eqs = [f for f in lib if f.short == "operator==" and (f.name.startswith("lanelet::") or "lanelet" in " ".join(f.ptype(p) for p in f.params))]
    names = {}
    # helpers that decide equality: lambdas and named functions called from the operator that return bool
    guaranteed = {}
    for e in eqs:
        ops = operands(e)
        if len(ops) != 2:
            continue
        todo, seen = [e], []
        ok_atoms = []
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.append(g)
            gops = ops if g is e or g.flag("lambda") or len(g.params) == 0 else operands(g)
            if len(gops) == 2 and gops[0] != gops[1]:
                pass
            for n, a, b in atoms(g):
                if in_loop_condition(g, n):
                    continue
                pred, ka, kb = eqfact(g, a, b)
                sa, sb = local_sub(g, ka), local_sub(g, kb)
                L = [bool(re.search(r"(?<![\w.:])%s\b" % re.escape(o), s)) for s in (sa, sb) for o in ops]
                if g is not e and not g.flag("lambda"):
                    L = [bool(re.search(r"(?<![\w.:])%s\b" % re.escape(o), s)) for s in (sa, sb) for o in (gops + ["", ""])[:2] if o]
                if len(L) < 4 or not ((L[0] or L[1]) and (L[2] or L[3])):
                    continue
                o0, o1 = (ops if g is e or g.flag("lambda") else gops)[:2]
                # index variables and the like are the same on both sides
                mir = mirror(sa, o0, o1) == sb
                loc = g.loc(n)
                c.ob("mirror", mir, loc, f"{e.name}({e.ptype(e.params[0])[:60]}):{norm(sa)},{norm(sb)}", f"{e.name} compares {sa.replace('v:', '')} with {sb.replace('v:', '')}", f"{e.name} {sa.replace('v:', '')}")
                if not mir:
                    continue
                # where is the comparison used?
                held = decided(P, g, n, pred)
                if held is None:
                    c.note(f"{loc}: use of the comparison not recognised, undecided")
                    ok_atoms.append((g, a))
                    continue
                c.ob("conjunction", held, loc, f"{e.name}({e.ptype(e.params[0])[:60]}):{norm(sa)}", f"{e.name} can hold although {sa.replace('v:', '')} differs", f"{e.name} {sa.replace('v:', '')}")
                if held:
                    ok_atoms.append((g, a))
            for n in g.nodes.values():
                for l in P.lambdas(n):
                    todo.append(l)
                if n["k"] in CALLS:
                    for t in P.targets(n):
                        if t.short != "operator==" and not t.flag("dep") and t.ret() in ("bool", "_Bool") and t.short not in ("expired", "inverted", "empty", "operator!=") and len(t.params) in (1, 2) and t.kind != "ctor" \
                                and (t.short.lower().startswith("equal") or t.short.lower().endswith("equal") or "compare" in t.short.lower() or "same" in t.short.lower()):
                            todo.append(t)
        fields = set()
        for g, a in ok_atoms:
            u = unwrap(g, g.node(a))
            if u is not None and u["k"] in CALLS and last(u.get("f", "")) in ("size", "empty", "length", "count"):
                continue      # says little about the content
            fields |= reads(P, g, g.node(a))
        # an element-wise comparison of both objects
        for n in e.calls():
            if last(n.get("f", "")) in ("equal", "is_permutation"):
                fields |= reads(P, e, n)
        guaranteed[e.id] = fields
        names[e.id] = e

    # ---- negation
    for f in lib:
        if f.short != "operator!=" or len(operands(f)) != 2:
            continue
        a, b = operands(f)
        if a == "this":
            want = {f"*this=={b}", f"{b}==*this", f"this=={b}"}
        else:
            want = {f"{a}=={b}", f"{b}=={a}"}
        neg = P.returns_imply(f, True, lambda x: x[0] == "eq" and not x[2] and norm(x[1]) in want)
        pos = P.returns_imply(f, False, lambda x: x[0] == "eq" and x[2] and norm(x[1]) in want)
        if not (neg and pos):
            # spelled out: compare with the parts that == looks at
            own = [e for e in eqs if e.cls == f.cls and [e.ptype(p) for p in e.params] == [f.ptype(p) for p in f.params]]
            if own and not any(P.targets(n) and P.targets(n)[0].short == "operator==" and own[0] in P.targets(n) for n in f.calls()):
                e = own[0]
                mp = dict(zip(operands(e), operands(f)))
                ks = []
                for n, x, y in atoms(e):
                    _, ka, kb = eqfact(e, x, y)
                    rx = r"(?<![\w.:])(%s)\b" % "|".join(re.escape(o) for o in mp)
                    ka, kb = (re.sub(rx, lambda m: mp[m.group(1)], k) for k in (ka, kb))
                    ks += [{f"{ka}=={kb}", f"{kb}=={ka}"}]
                al = set().union(*ks) if ks else set()
                neg = P.returns_imply(f, True, lambda x: x[0] == "eq" and not x[2] and norm(x[1]) in al)
                pos = bool(ks) and all(P.returns_imply(f, False, lambda x, k=k: x[0] == "eq" and x[2] and norm(x[1]) in k) for k in ks)
        c.ob("negation", neg and pos, f.loc(), f"{f.name}:{norm(f.ptype(f.params[0]))[:60]}",
             f"{f.name} is not the negation of equality ({'true' if not neg else 'false'} does not mean {'different' if not neg else 'equal'})", f.name)

    # ---- required parts and hashes
    wits = [f for f in P.funcs.values()] if isinstance(P.funcs, dict) else list(P.funcs)
    wits = [f for f in wits if f.name in ("wit_eq", "wit_hash")]
    byt = {}
    for f in wits:
        byt.setdefault(f.ptype(f.params[0]), {})[f.name] = f
    for t, d in sorted(byt.items()):
        rs = records(P, t)
        st = re.sub(r"^const |[ &]*$", "", t)
        if not rs:
            c.note(f"{st}: record not found")
            continue
        own = {f["q"]: (r, f) for r in rs for f in r.get("fields", ())}
        own = {re.sub(r"<.*?>", "", q): v for q, v in own.items()}
        eqf = None
        if "wit_eq" in d:
            es = [x for n in d["wit_eq"].calls() for x in P.targets(n)]
            if not es:
                c.note(f"{st}: comparison of the standard library")
            for e in es:
                if e.id not in guaranteed:
                    c.note(f"{st}: comparison {e.loc()} not analysed")
                    continue
                eqf = guaranteed[e.id]
                for q, (r, fd) in sorted(own.items()):
                    if q in INDEX or fd.get("mutable") or re.search(r"cache", q, re.I):
                        continue
                    c.ob("covers", q in eqf, e.loc(), f"{st[:60]}:{last(q)}", f"objects of {st[:80]} that differ in {last(q)} compare equal", f"{st[:60]} {last(q)}")
        if "wit_hash" in d:
            hs = [x for n in d["wit_hash"].calls() for x in P.targets(n) if x.short == "operator()"]
            for h in hs:
                hf = reads(P, h, None) & set(own)
                adr = [n for n in h.nodes.values() if n["k"] == "UnaryOperator" and n.get("op") == "&" or n["k"] in CALLS and last(n.get("f", "")) == "addressof"]
                bad = sorted(last(q) for q in hf - eqf) if eqf is not None else []
                c.ob("hash", not bad and not adr, h.loc(), f"{st[:60]}", f"the hash of {st[:60]} depends on {', '.join(bad) or 'the address of the object'}, which comparison does not look at", f"{st[:60]}: {sorted(last(q) for q in hf)}")


def decided(P, g, n, pred):
    """does the function answer true only if the comparison n found equality? None: not recognised"""
    # the value of the enclosing condition
    x, top = n, n
    while True:
        p = g.parent(x)
        if p is None:
            return None
        if p["k"] in ("IfStmt", "ConditionalOperator") and p["c"][0] is not None and p["c"][0]["i"] == x["i"]:
            top = x
            if p["k"] == "ConditionalOperator":
                break
            kids_ = [y for y in p["c"][1:] if y is not None]
            then = g.node(kids_[0]) if kids_ else None
            v = ret_const(g, then)
            if v is False:
                return P.implies(g, x, False, pred)
            if v is None and then is not None:
                return P.implies(g, x, True, pred) if falls_false(g, p) else None
            return None
        if p["k"] == "ReturnStmt":
            break
        if p["k"] == "DeclStmt":
            vs = [v["id"] for v in p["vars"] if v.get("init") is not None and v["init"]["i"] == x["i"]]
            uses = [y for y in g.all("DeclRefExpr") if y["d"].get("id") in vs]
            r = [decided(P, g, y, pred) for y in uses]
            if all(r) and r or P.returns_imply(g, True, pred):
                return True
            return None if not r or None in r else False
        if p["k"] in ("ForStmt", "WhileStmt", "DoStmt"):
            return None
        x = p
    return P.returns_imply(g, True, pred)


def ret_const(g, s):
    for x in walk(s) if False else wk(g, s):
        if x["k"] == "ReturnStmt" and x.get("c"):
            y = unwrap(g, g.node(x["c"][0]))
            if y is not None and y["k"] == "CXXBoolLiteralExpr":
                return str(y.get("v", y.get("ev"))) in ("1", "true", "True")
    return None


def falls_false(g, ifs):
    """the statement after the if returns false"""
    p = g.parent(ifs)
    if p is None or p["k"] != "CompoundStmt":
        return False
    i = [y["i"] for y in p["c"]].index(ifs["i"])
    return any(ret_const(g, g.node(y)) is False for y in p["c"][i + 1:i + 2])


def in_loop_condition(g, n):
    x = n
    while True:
        p = g.parent(x)
        if p is None or p["k"] in ("CompoundStmt", "IfStmt", "ReturnStmt"):
            return False
        if p["k"] in ("ForStmt", "WhileStmt", "DoStmt"):
            return True
        x = p
