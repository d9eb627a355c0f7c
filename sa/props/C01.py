"""C01 Const handles never give mutable access.

Three views on the same guarantee.  (1) Programs: a catalogue of expressions (sa/c01cases.py), each compiled with mutable
arguments (has to compile, so the expression means something) and with constant arguments (must not compile).  (2) Every
public constant member function, conversion and public member of the shared types: its type must not let the holder
change shared data; "grants" is computed by the extractor from the canonical type.  (3) Every place that removes const:
it stays inside a mutable handle working on its own data, or its function returns nothing mutable and does not write."""
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from ..facts import AnalysisBroken, base_flags
from .H01 import CXX
from ..core import CALLS, call_args, call_obj, root_var, unwrap, short
from .. import c01cases
from . import V01

GENERIC = {"lanelet::HybridMap", "lanelet::LineStringOrPolygonBase"}   # hold what their arguments say
REMOVERS = {"std::const_pointer_cast", "boost::const_pointer_cast", "lanelet::utils::removeConst"}


def bases(P, q):
    out = set()
    for r in P.recbyname.get(q, ()):
        out |= {b.split("<")[0] for b in V01.bases(P, r)}
    return out


def root_ptr(f, n):
    """the local variable an expression works on, through pointers and dereferences too"""
    n = unwrap(f, n)
    while n is not None:
        v = root_var(f, n)
        if v is not None:
            return v
        k = n["k"]
        if k in ("MemberExpr", "UnaryOperator", "CXXStaticCastExpr", "ParenExpr") and n.get("c"):
            n = unwrap(f, n["c"][0])
        elif k == "CXXOperatorCallExpr" and n.get("op") in ("->", "*", "[]"):
            n = unwrap(f, n["c"][1])
        elif k == "CXXMemberCallExpr":
            n = unwrap(f, call_obj(f, n))
        else:
            return None
    return None


def compile_cases(c):
    c.rule("C01.nocompile", "a program that changes shared data through a constant argument does not compile (the same program with mutable arguments does)", 300)
    flags = [x for x in base_flags() if x not in ("-w", "-fsyntax-only")] + ["-Wno-everything", "-fno-caret-diagnostics", "-fsyntax-only",
                                                                          "-ferror-limit=0", "-ftemplate-backtrace-limit=0"]
    progs = list(c01cases.programs())
    with tempfile.TemporaryDirectory() as d:
        def unit(name, ps):
            p = os.path.join(d, name + ".cpp")
            src, at = c01cases.PRE + "namespace lanelet {\n", {}
            n = src.count("\n")
            for i, (params, st) in ps:
                at[n + 2] = i
                src += f"namespace n{i} {{\nvoid program({params}) {{ {st} }}\n}}\n"
                n += 3
            with open(p, "w") as fh:
                fh.write(src + "}\n")
            r = subprocess.run([CXX] + flags + [p], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            res, cur, hdr = {}, None, None
            for l in r.stderr.splitlines():
                if re.search(r": (fatal )?error: ", l):
                    cur = l
                m = re.match(re.escape(p) + r":(\d+):", l)
                if m and cur and int(m.group(1)) in at:
                    res.setdefault(at[int(m.group(1))], cur)
            if r.returncode and not res:
                hdr = r.stderr[:300]
            return res, hdr
        N = 8
        with ThreadPoolExecutor(8) as ex:
            J = []
            for k in range(N):
                J.append((False, ex.submit(unit, f"n{k}", [(i, (p[1], p[2])) for i, p in enumerate(progs) if i % N == k])))
                J.append((True, ex.submit(unit, f"p{k}", [(i, (p[3], p[4])) for i, p in enumerate(progs) if i % N == k])))
            neg, pos = {}, {}
            for good, j in J:
                res, hdr = j.result()
                if hdr is not None:
                    raise AnalysisBroken("the public headers do not compile: " + hdr)
                (pos if good else neg).update(res)
            # the compiler reports an error inside one template instantiation once: ask again, alone
            again = [i for i in range(len(progs)) if i not in neg and i not in pos]
            for i, (res, _) in zip(again, ex.map(lambda i: unit(f"a{i}", [(i, (progs[i][1], progs[i][2]))]), again[:64])):
                neg.update(res)
    gone = [progs[i][0] for i in pos]
    if gone:
        c.note(f"{len(gone)} programs do not compile with mutable arguments either and say nothing: " + "; ".join(gone)[:600])
    for i, (name, cp, st, mp, st2) in enumerate(progs):
        if i in pos:
            continue
        c.ob("C01.nocompile", i in neg, "sa/c01cases.py", name, f"`void f({cp}) {{ {st} }}` compiles: {name} gives write access to data that is constant",
             f"{name}: rejected")
    c.analysed["programs"] = len(progs)


def run(c):
    P = c.program("core", "io", "projection", "traffic_rules", "routing", "matching", "validation", "wit", "wit_const")
    compile_cases(c)

    c.rule("C01.return", "no public constant member function (or member function of a constant type) returns something that can change shared data", 300)
    c.rule("C01.field", "no public member of a shared object shows something that can change other shared data", 5)
    c.rule("C01.iterator", "an iterator over constant elements does not convert to an iterator over mutable ones", 1)
    c.rule("C01.mutable", "shared objects have no public mutable members", 10)
    c.rule("C01.cast", "const is removed only inside a mutable handle from its own data, or where nothing mutable leaves the function", 10)
    c.rule("C01.write", "nothing is changed through a handle or pointer whose const was removed", 5)
    recs = [(q, r) for q, rs in sorted(P.recbyname.items()) if q.startswith("lanelet::") and "(anon)" not in q for r in rs]
    if len(recs) < 100:
        raise AnalysisBroken("library types vanished")
    up = {}

    def isa(q, *names):
        if q not in up:
            up[q] = set(bases(P, q)) | {q}
        return any(n in up[q] for n in names)

    def fresh_map(m, q):
        """a map just built, handed over to the caller"""
        g = m["grants"]
        if not re.match(r"(unique_ptr|shared_ptr) to lanelet::Lanelet(Map|Submap)$", g):
            return False
        f = P.funcs.get(m["id"])
        if f is None or not f.d.get("cfg"):
            return g.startswith("unique_ptr")
        for n in f.nodes.values():
            if n["k"] == "ReturnStmt":
                r = unwrap(f, n["c"][0]) if n["c"] else None
                for w in ([r] if r else []):
                    while w is not None and w["k"] in CALLS and len(w.get("c", ())) and w["k"] == "CXXConstructExpr":
                        w = unwrap(f, w["c"][0])
                    if w is not None and w["k"] == "MemberExpr":
                        return False
        return True

    seen = set()

    def method(q, r, m, where):
        if m.get("acc") != "public" or m.get("ctor") or m.get("static"):
            return
        constant = isa(q, "lanelet::ConstPrimitive", "lanelet::LaneletSequence") and not isa(q, "lanelet::RegulatoryElement") or \
            re.match(r"lanelet::(Const|Compound)", q)
        if not m.get("const") and not constant:
            return
        key = f"{q}::{m['n']}"
        g = m.get("grants", "")
        if g.startswith("reference to ") and not m.get("const") and isa(q, g[len("reference to "):]):
            g = ""
        if g.startswith(("reference to std::basic_", "pointer to std::basic_")):
            g = ""
        if g and q.startswith("lanelet::osm::"):
            g = ""
        if (key, bool(m.get("const")), bool(g)) in seen and not g:
            return
        seen.add((key, bool(m.get("const")), bool(g)))
        if r.get("iter"):
            if r.get("iterref"):
                return
            if re.match(r"operator [A-Za-z_]", m["n"]) and m["n"] != "operator bool":
                c.ob("C01.iterator", not g, where, q, f"the constant iterator {q} converts to one that gives {g}")
                return
            return
        if r.get("handle") and not isa(q, "lanelet::RegulatoryElement"):
            return
        if q in GENERIC or q.startswith("lanelet::internal::"):
            return      # not what users hold; they give back what they are handed
        if g and fresh_map(m, q):
            g = ""
        c.ob("C01.return", not g, where, key, f"{q}::{m['n']} is usable on constant objects and returns {g}", f"{key} -> {m.get('ret', '')[:60]}")

    for q, r in recs:
        where = f"{r.get('file', '?')}:{r.get('line', 0)}".replace("/repo/", "")
        for m in r.get("api", ()):
            if m.get("field"):
                if isa(q, "lanelet::PrimitiveData", "lanelet::ConstPrimitive", "lanelet::LaneletMapLayers", "lanelet::PrimitiveLayer",
                       "lanelet::LaneletSequenceData", "lanelet::CompoundLineStringData", "lanelet::Attribute") or re.match(r"lanelet::(Const|Compound)", q):
                    if r.get("handle"):
                        continue
                    # the layers of a map are constant objects of their own
                    g = m.get("grants", "")
                    c.ob("C01.field", not g, where, f"{q}::{m['n']}", f"the public member {m['n']} of {q} is visible through constant objects and gives {g}",
                         f"{q}::{m['n']}: {m.get('t', '')[:60]}")
            else:
                method(q, r, m, f"{r.get('file', '?')}:{m['line']}".replace("/repo/", ""))
        if isa(q, "lanelet::PrimitiveData", "lanelet::ConstPrimitive", "lanelet::LaneletMapLayers", "lanelet::PrimitiveLayer", "lanelet::LaneletSequenceData",
               "lanelet::CompoundLineStringData", "lanelet::Attribute"):
            bad = [x["n"] for x in r.get("fields", ()) if x.get("mutable") and x.get("acc") == "public"]
            c.ob("C01.mutable", not bad, where, q, f"public mutable member {', '.join(bad)} of {q} can be changed through constant objects")

    # instantiated member templates
    for f in P.lib():
        if f.kind not in ("method", "conv") or f.flag("anon") or not f.name.startswith("lanelet::"):
            continue
        q = f.name.rsplit("::", 1)[0]
        rs = [r for r in P.recbyname.get(q, ())]
        if not rs or not f.d.get("est") and not f.d.get("targs") and any(m.get("id") == f.id for r in rs for m in r.get("api", ())):
            continue
        if f.kind == "conv" and any(r.get("iter") for r in rs):
            continue
        method(q, rs[0], {"n": f.short, "id": f.id, "acc": f.d.get("access"), "const": f.flag("const"), "static": f.flag("static"),
                          "grants": f.d.get("grants", ""), "ret": ""}, f.loc())
    casts(c, P, isa)


def pointee_const(t):
    t = t.strip()
    m = re.match(r"(?:const )?(?:std|boost)::(?:shared|weak)_ptr<(.*)>", t)
    if m:
        return m.group(1).strip().startswith("const ") or m.group(1).strip().endswith(" const")
    return t.startswith("const ") or re.match(r"^[\w:<>]+ const\b", t) is not None


def casts(c, P, isa):
    owner = {}
    for f in P.funcs.values():
        for n in f.nodes.values():
            for l in P.lambdas(n) if n.get("lam") else ():
                owner[l.id if hasattr(l, "id") else l] = f

    def outer(f):
        s = set()
        while f.id in owner and f.id not in s:
            s.add(f.id)
            f = owner[f.id]
        return f

    def removes(f, n):
        if n.get("f") in REMOVERS:
            a = call_args(f, n)
            return bool(a) and pointee_const(f.type(unwrap(f, a[0]))) and not pointee_const(f.type(n))
        if n["k"] in ("CXXConstCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXFunctionalCastExpr") and n["c"]:
            t, s = f.type(n), f.type(f.node(n["c"][-1]))
            ptr = t.endswith(("*", "&")) or n["k"] == "CXXConstCastExpr"
            return ptr and pointee_const(s) and not pointee_const(t)
        return False

    sites = {}      # function id -> [(function, node)]
    work = []
    for f in P.lib():
        for n in f.nodes.values():
            if removes(f, n):
                work.append((f, n, "cast"))
    if not work:
        raise AnalysisBroken("no place removes const any more")
    done = set()
    keys = set()
    while work:
        f, n, why = work.pop()
        if (f.id, id(n)) in done:
            continue
        done.add((f.id, id(n)))
        g = outer(f)
        src = call_args(f, n)[0] if n["k"] in CALLS and call_args(f, n) else (f.node(n["c"][-1]) if n.get("c") else n)
        key = f"{g.name}:{why}"
        ok, msg = True, ""
        cls = g.cls or ""
        grants = g.d.get("grants", "")
        if g.name in REMOVERS or (g.name == "lanelet::utils::removeConst"):
            continue
        handle = any(r.get("handle") for r in P.recbyname.get(cls, ()))
        own = g.kind == "method" and from_this(f, src)
        if own and handle and (g.flag("const") or True):
            # a mutable handle reaching its own data
            what = "mutable handle"
        elif own and isa(cls, "lanelet::RegulatoryElement") and not g.flag("const"):
            what = "mutable regulatory element"
        elif grants and not g.d.get("pgrants"):
            hidden = g.flag("anon") or g.d.get("access") in ("private", "protected") or g.d.get("static_fn")
            if hidden and g.kind in ("func", "method"):
                for h, m in P.callsites(g.id):
                    work.append((h, m, short(g.name)))
                what = "private helper, judged where it is called"
            else:
                ok, what = False, ""
                msg = f"{g.name} takes only constant arguments and returns {grants} after removing const"
        else:
            what = "nothing mutable is returned"
        if ok and (key, what) in keys:
            pass
        keys.add((key, what))
        c.ob("C01.cast", ok, f.loc(n), key, msg, f"{g.name}: {what}")
        bad = written(P, f, n)
        if what.startswith("mutable"):
            continue
        c.ob("C01.write", bad is None, f.loc(bad or n), key, f"{g.name} removes const and changes the data ({bad and short(bad.get('f') or bad['k'])})", g.name)


def from_this(f, n):
    n = unwrap(f, n)
    while n is not None:
        if n["k"] == "CXXThisExpr":
            return True
        if n["k"] == "DeclRefExpr":
            # a local that holds the locked pointer
            d = n.get("d", {})
            v = f.vardef(d.get("id")) if d.get("k") == "Var" else None
            if v is None:
                return False
            n = unwrap(f, v if isinstance(v, dict) and "k" in v else (f.node(v) if v is not None else None))
            continue
        if n["k"] in CALLS:
            o = call_obj(f, n)
            if o is None:
                a = call_args(f, n)
                if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or (n.get("f") or "").startswith("std::"):
                    o = a[0] if a else None
                if o is None:
                    # a member function called on the implicit this
                    return n["k"] == "CXXMemberCallExpr"
            n = unwrap(f, o)
            continue
        if n.get("c"):
            n = unwrap(f, n["c"][0])
            continue
        return n["k"] == "MemberExpr"
    return False


def written(P, f, n):
    """the node that changes something through the unconst value, in the same function"""
    taint = set()
    par = f.parent(n)
    cur = n
    steps = 0
    while par is not None and steps < 12:
        steps += 1
        k = par["k"]
        if k in CALLS:
            o = call_obj(f, par)
            if o is not None and inside(f, o, n):
                if par["k"] == "CXXMemberCallExpr" and not par.get("fconst") and not par.get("fstatic") and not getter(P, par):
                    return par
                if par["k"] == "CXXOperatorCallExpr" and par.get("op") in ("=", "+=", "-=", "[]") and not par.get("fconst"):
                    return par
            elif k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                break
        if k in ("BinaryOperator", "CompoundAssignOperator") and par.get("op", "").endswith("=") and par.get("op") not in ("==", "!=", "<=", ">="):
            if inside(f, f.node(par["c"][0]), n):
                return par
            break
        if k == "UnaryOperator" and par.get("op") in ("++", "--"):
            return par
        if k == "DeclStmt":
            for v in par["vars"]:
                if v.get("init") is not None and inside(f, f.node(v["init"]) if not isinstance(v["init"], dict) else v["init"], n):
                    taint.add(v["id"])
            break
        if k in ("ReturnStmt", "CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "LambdaExpr"):
            break
        cur = par
        par = f.parent(par)
    if not taint:
        return None
    for m in f.nodes.values():
        if m["k"] in CALLS:
            o = call_obj(f, m)
            if o is None or m["k"] == "CXXConstructExpr":
                continue
            v = root_ptr(f, o)
            if v in taint and not m.get("fconst") and not m.get("fstatic") and m.get("f") and (m["k"] == "CXXMemberCallExpr" or
                    m.get("op") in ("=", "+=", "-=", "*=", "/=")):
                if getter(P, m) or (m.get("f") or "").rsplit("::", 1)[-1] in ("get", "lock", "operator->", "operator*", "operator bool", "begin", "end"):
                    continue
                if m.get("op") == "=" and unwrap(f, o)["k"] == "DeclRefExpr":
                    continue
                return m
        elif m["k"] in ("BinaryOperator", "CompoundAssignOperator") and m.get("op", "").endswith("=") and m.get("op") not in ("==", "!=", "<=", ">="):
            t = unwrap(f, f.node(m["c"][0]))
            if t is not None and t["k"] != "DeclRefExpr" and root_ptr(f, t) in taint:
                return m
    return None


def getter(P, call):
    """a member function that only returns an expression without changing anything itself"""
    fs = [g for g in P.targets(call) if g.d.get("cfg")]
    if not fs:
        return False
    for g in fs:
        for n in g.nodes.values():
            if n["k"] in ("CompoundAssignOperator", "CXXDeleteExpr") or n["k"] == "BinaryOperator" and n.get("op") == "=" or \
               n["k"] == "UnaryOperator" and n.get("op") in ("++", "--"):
                return False
            if n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and not n.get("fconst") and not n.get("fstatic") and \
               not (n.get("f") or "").rsplit("::", 1)[-1] in ("begin", "end", "get", "operator->", "operator*", "operator[]", "data"):
                return False
    return True


def inside(f, top, n):
    top = f.node(top)
    p = n
    while p is not None:
        if p is top:
            return True
        p = f.parent(p)
    return False
