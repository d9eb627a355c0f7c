"""I01: what the binary format's load functions read is what its save functions wrote."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from ..feeds import Feeds, last
from .V02 import wk
from .V01 import bases
from .C03 import reaches

FILE = "lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h"
COLL = {"save_collection": "collection", "load_map_collection": "collection", "load_collection": "collection"}


class Wire:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.F = Feeds(P, inline=lambda g: False)
        self.memo = {}

    # ------------------------------------------------------------ what is transferred
    def isarch(self, t):
        return "archive::binary_" in t or "_iarchive" in t or "_oarchive" in t

    def transfers(self, g, seen=()):
        """does g transfer anything"""
        if g.id in self.memo:
            return self.memo[g.id]
        if g.id in seen:
            return False
        r = False
        for n in g.calls():
            if self.item(g, n) is not None or last(n.get("f", "")) in COLL:
                r = True
                break
            if any(self.transfers(h, seen + (g.id,)) for h in self.callees(g, n)):
                r = True
                break
        self.memo[g.id] = r
        return r

    def callees(self, f, n):
        return [h for h in self.P.targets(n) if h.loc().startswith("lanelet2_io/") and h.cfg and not h.flag("dep") and
                not (h.name.startswith("boost::serialization::") and h.cls is None and h.short in ("serialize",))]

    def item(self, f, n):
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("<<", ">>", "&") and len(n["c"]) == 3 and self.isarch(f.type(f.node(n["c"][1]))):
            return n["c"][2]
        return None

    def wire(self, f, env=None, depth=0):
        body = [n for n in f.all("CompoundStmt") if f.parent(n) is None]
        if not body and f.kind == "lambda":
            body = [n for n in f.all("CompoundStmt")][:1]
        return self.seq(f, body[0]["c"], env or {}, depth) if body else []

    def seq(self, f, stmts, env, d):
        out = []
        st = [x for x in stmts if x is not None]
        for i, s in enumerate(st):
            s = f.node(s)
            k = s["k"]
            if k == "CompoundStmt":
                out += self.seq(f, s["c"], env, d)
                if self.leaves(f, s):
                    return out
            elif k == "IfStmt":
                c_ = [x for x in s["c"] if x is not None]
                cond = self.cond(f, s)
                then, els = self.branches(f, s, c_)
                out += self.expr(f, cond, env, d)
                a = self.seq(f, [then], env, d) if then is not None else []
                b = self.seq(f, [els], env, d) if els is not None else []
                rest = None
                if then is not None and self.leaves(f, f.node(then)):
                    rest = self.seq(f, st[i + 1:], env, d)
                    b = b + rest
                elif els is not None and self.leaves(f, f.node(els)):
                    rest = self.seq(f, st[i + 1:], env, d)
                    a = a + rest
                thrown = lambda x: x is not None and any(y["k"] == "CXXThrowExpr" for y in wk(f, x))
                if thrown(then) and not a:
                    out += b
                elif thrown(els) and not b:
                    out += a
                elif a or b:
                    out.append({"k": "if", "cond": (f, cond, env), "a": a, "b": b, "n": s, "f": f})
                if rest is not None:
                    return out
            elif k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                b = body_of(f, s)
                t = self.seq(f, [b], env, d) if b is not None else []
                if t:
                    out.append({"k": "loop", "n": s, "f": f, "env": env, "t": t})
            elif k in ("CXXTryStmt", "AttributedStmt"):
                out += self.seq(f, s["c"][:1], env, d)
            elif k == "ReturnStmt":
                out += self.expr(f, s, env, d)
                return out
            else:
                out += self.expr(f, s, env, d)
        return out

    def cond(self, f, s):
        b = next((x for x in f.cfg["blocks"].values() if x.get("ti") == s["i"]), None)
        c_ = [x for x in s["c"] if x is not None]
        for x in c_:
            x = f.node(x)
            if x["k"] not in ("DeclStmt", "CompoundStmt"):
                return x
        return f.node(c_[0])

    def branches(self, f, s, c_):
        cn = self.cond(f, s)
        ids = [f.node(x)["i"] for x in c_]
        i = ids.index(cn["i"])
        r = c_[i + 1:]
        return (r[0] if r else None), (r[1] if len(r) > 1 else None)

    def leaves(self, f, s):
        if s["k"] in ("ReturnStmt", "CXXThrowExpr"):
            return True
        if s["k"] == "CompoundStmt":
            return any(self.leaves(f, f.node(x)) for x in s["c"] if x is not None and f.node(x)["k"] in ("ReturnStmt", "CXXThrowExpr", "CompoundStmt"))
        return False

    def expr(self, f, n, env, d):
        """transfers of an expression or declaration in evaluation order"""
        out = []

        def go(x):
            x = f.node(x)
            if x["k"] == "LambdaExpr":
                return
            if x["k"] == "DeclStmt":
                for v in x.get("vars", ()):
                    if isinstance(v.get("init"), dict):
                        go(v["init"])
            for y in x.get("c", ()):
                if y is not None:
                    go(y)
            if x["k"] in CALLS:
                it = self.item(f, x)
                if it is not None:
                    out.append({"k": "item", "t": self.ty(f.type(f.node(it))), "op": it, "f": f, "env": env, "n": x})
                elif last(x.get("f", "")) in COLL and x.get("f", "").startswith("boost::"):
                    a = call_args(f, x)
                    out.append({"k": "item", "t": "collection of " + self.ty(f.type(f.node(a[1]))), "op": a[1], "f": f, "env": env, "n": x})
                elif d < 8:
                    lam = self.F.closure(f, x, env)
                    gs = [(g, en) for g, en in lam] if lam is not None else [(g, self.F.bind(f, x, g, env)) for g in self.callees(f, x)]
                    for g, en in gs[:1]:
                        if self.transfers(g):
                            out.extend(dict(y, via=y.get("via", ()) + ((f, x, env),)) if y["k"] == "item" else y for y in self.wire(g, en, d + 1))
        go(n)
        return out

    def ty(self, t):
        t = re.sub(r"\b(const|struct|class)\b ?", "", t).replace("&", "").strip()
        t = t.replace("std::shared_ptrlanelet", "std::shared_ptr<lanelet")
        return {"unsigned long": "size_t", "std::size_t": "size_t"}.get(t, t)

    # ------------------------------------------------------------ where values come from and go to
    def klass(self, t):
        t = self.ty(t).rstrip("* ")
        m = re.match(r"std::(shared|unique)_ptr<(.*?)>?$", t)
        return m.group(2) if m else t

    def methods(self, cls, name):
        """methods of a class or its bases"""
        todo, seen = [cls], []
        while todo:
            q = todo.pop(0)
            if q in seen:
                continue
            seen.append(q)
            for r in self.recs(q):
                todo += [self.clean(b) for b in bases_of(r)]
        by = getattr(self, "_by", None)
        if by is None:
            by = self._by = {}
            for g in self.P.funcs.values():
                if g.cls and not g.flag("dep"):
                    by.setdefault((g.cls, g.short), []).append(g)
        return [g for q in seen for g in by.get((self.clean(q), name), ())], seen

    def clean(self, q):
        return re.sub(r"<.*>$", "", re.sub(r"^(const )?", "", q)).strip()

    def recs(self, q):
        r = self.P.recbyname.get(q) or self.P.recbyname.get(self.clean(q)) or []
        return r if isinstance(r, list) else [r]

    def member(self, cls, name):
        """the data member an accessor hands out"""
        gs, cl = self.methods(cls, name)
        out = set()
        for g in gs:
            for n in g.all("ReturnStmt"):
                if n.get("c"):
                    for t in self.F.term(g, n["c"][0], {}):
                        m = re.match(r"^this\.(\w+)$", t)
                        if m:
                            nm = m.group(1)
                            # accessor that forwards to another accessor
                            out |= ({nm} if not self.methods(cls, nm)[0] or nm == name else self.member(cls, nm) or {nm})
                        m = re.match(r"^this\.(?:constData|data)\.(\w+)$", t)
                        if m:
                            out.add("data." + m.group(1))
        return out

    def source(self, x, cls):
        """terms of a saved operand, relative to the saved object"""
        out = set()
        for t in self.F.term(x["f"], x["op"], x["env"]):
            for _ in range(4):
                m = re.match(r"^[\w:<>]+\(([^|]*)\)$", t)
                if not m:
                    break
                t = m.group(1)
            m = re.match(r"^P[01](?:\.(.*))?$", t)
            if not m:
                out.add("?" + t)
                continue
            path = (m.group(1) or "").split(".") if m.group(1) else []
            if path:
                h = re.sub(r"\[\]", "", path[0])
                ms = self.member(cls, h)
                tail = path[0][len(h):]
                if len(ms) >= 1:
                    for mm in ms:
                        out.add(".".join([mm + tail] + path[1:]))
                    continue
            out.add(".".join(path))
        return out

    def params(self, g, j, d=0, subst=None):
        """members that parameter j of a constructor or method ends up in"""
        key = (g.id, j)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        out = set()
        P, F = self.P, self.F
        pj = "P%d" % j
        if d > 6 or j >= len(g.params):
            return out
        vid = g.params[j]["id"]

        def uses(n):
            return any(y["k"] == "DeclRefExpr" and y.get("d", {}).get("id") == vid for y in wk(g, g.node(n)))
        for i in g.d.get("inits", ()):
            e = i.get("e")
            if not isinstance(e, dict) or not uses(e):
                continue
            m = i.get("m")
            if m and pj in F.term(g, e, {}):
                out.add(last(m))
                continue
            out |= self.handed(g, e, vid, d + 1)
            if m and not out:
                out.add(last(m))
        for n in g.nodes.values():
            if n["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=":
                l, r = (n["c"][0], n["c"][1]) if n["k"] == "BinaryOperator" else (n["c"][1], n["c"][2])
                l = unwrap(g, l)
                mk = [y for y in wk(g, g.node(r)) if y["k"] in CALLS and last(y.get("f", "")) in ("make_shared", "make_unique")]
                if pj in F.term(g, r, {}) or any(root_of(g, z) == vid for y in mk for z in call_args(g, y)):
                    for t in F.term(g, l, {}):
                        m = re.match(r"^this(?:\.(?:constData|data))?\.(\w+)$", t)
                        if m:
                            out.add(m.group(1))
                        elif t == "this":
                            out |= self.handed(g, n, vid, d + 1)
            elif n["k"] in CALLS and n.get("op") != "=" and last(n.get("f", "")) not in ("move", "forward", "swap") and uses(n):
                if not any(id(n) == id(x) for x in ()):
                    out |= self.handed(g, n, vid, d + 1, direct=True)
        self.memo[key] = out
        return out

    def handed(self, g, n, vid, d, direct=False):
        """members reached by handing variable vid to the calls and constructors in n"""
        out = set()
        for y in wk(g, g.node(n)):
            if y["k"] in CALLS or y["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                a = call_args(g, y) if y["k"] in CALLS else [z for z in y.get("c", ()) if z is not None]
                for j, z in enumerate(a):
                    u = root_of(g, z)
                    if u is not None and u == vid:
                        for h in self.targets_of(g, y):
                            if h.params and self.iscopy(h):
                                continue
                            out |= self.params(h, j, d + 1)
        return out

    def iscopy(self, h):
        return h.kind == "ctor" and len(h.params) == 1 and self.ty(h.ptype(h.params[0])) == h.cls

    def targets_of(self, g, y):
        r = list(self.P.targets(y))
        if not r and y.get("fid") in self.P.funcs:
            r = [self.P.funcs[y["fid"]]]
        if not r and y["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr") and "::" in (y.get("f") or ""):
            # inherited constructor: the constructor of a base class it stands for
            a = [x for x in y.get("c", ()) if x is not None]
            cls = y["f"].rsplit("::", 1)[0]
            seen = self.methods(cls, "")[1] if a and cls.startswith("lanelet::") else []
            for q in seen[1:]:
                for h in self.ctors().get(self.clean(q), ()):
                    if len(h.params) == len(a) and all(self.fits(g.type(g.node(x)), h.ptype(p)) for x, p in zip(a, h.params)):
                        r.append(h)
                if r:
                    break
        return r

    def ctors(self):
        if not hasattr(self, "_ct"):
            self._ct = {}
            for h in self.P.funcs.values():
                if h.kind == "ctor" and h.cls and not h.flag("dep"):
                    self._ct.setdefault(self.clean(h.cls), []).append(h)
        return self._ct

    def fits(self, a, p):
        """may an argument of type a initialise a parameter of type p (handles and pointers only)"""
        a, p = self.ty(a), self.ty(p)
        return a == p or "shared_ptr<" in a and "shared_ptr<" in p and self.klass(a) == self.klass(p)

    def sinks(self, f, vid, env):
        """(paths, used): members a local variable filled from the archive ends up in"""
        out, used, where = set(), False, []
        for g, en in [(f, env)]:
            for n in g.nodes.values():
                if n["k"] in CALLS and self.item(g, n) is None or n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    a = call_args(g, n) if n["k"] in CALLS else [z for z in n.get("c", ()) if z is not None]
                    if n["k"] in CALLS and n.get("op") == "=":
                        a = [n["c"][2]]
                    for j, z in enumerate(a):
                        if root_of(g, z) != vid and not (isinstance(vid, tuple) and unwrap(g, z)["i"] == vid[1]):
                            continue
                        used = True
                        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (n.get("f") or "").endswith("Matrix::Matrix") and 2 <= len(a) <= 3:
                            # coordinate of a point under construction
                            for q, h2, j2 in self.users(g, n):
                                for t in (self.params(h2, j2) if h2 is not None else self.sinks(g, q, env)[0]):
                                    out.add(t + "." + "xyz"[j])
                        for h in self.targets_of(g, n):
                            if self.iscopy(h):
                                continue
                            r = self.params(h, j)
                            where.append((n, h))
                            out |= r
        return out, used, where


    def users(self, g, n):
        """where a constructed value goes: (None, callee, parameter) or (variable, None, None)"""
        for m in g.nodes.values():
            if m["k"] in CALLS or m["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                a = call_args(g, m) if m["k"] in CALLS else [z for z in m.get("c", ()) if z is not None]
                for j, z in enumerate(a):
                    if m["i"] != n["i"] and unwrap(g, z)["i"] == n["i"]:
                        for h in self.targets_of(g, m):
                            if not self.iscopy(h):
                                yield None, h, j
            elif m["k"] == "DeclStmt":
                for v in m.get("vars", ()):
                    if isinstance(v.get("init"), dict) and unwrap(g, v["init"])["i"] == n["i"]:
                        yield v["id"], None, None


def bases_of(r):
    return [b if isinstance(b, str) else b.get("n") or b.get("q") or b.get("t") or "" for b in r.get("bases", ())]


def origin(f, vid):
    """the variable a local that is set once was copied from"""
    for _ in range(6):
        i = f.vardef(vid) if vid is not None else None
        r = root_of(f, i) if isinstance(i, dict) else None
        if r is None:
            return vid
        vid = r
    return vid


def root_of(f, n):
    """id of the variable an expression denotes (through moves, copies and conversions)"""
    n = unwrap(f, n)
    for _ in range(12):
        if n["k"] == "DeclRefExpr":
            return n.get("d", {}).get("id")
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and n.get("c"):
            c = [x for x in n["c"] if x is not None and f.node(x)["k"] != "CXXDefaultArgExpr"]
            if len(c) != 1:
                return None
            n = unwrap(f, c[0])
            continue
        if n["k"] in CALLS and last(n.get("f", "")) in ("move", "forward") and call_args(f, n):
            n = unwrap(f, call_args(f, n)[0])
            continue
        return None
    return None


def subject(f):
    """type a save or load function is about"""
    return f.ptype(f.params[1]).replace("const ", "").replace("&", "").strip() if len(f.params) > 1 else None


def run(c):
    P = c.program("core", "io", "wit_serial")
    W = Wire(c, P)
    F = W.F
    Fx = Feeds(P, inline=lambda g: g.loc().startswith("lanelet2_io/") and not g.flag("dep"))
    fs = [f for f in P.lib() if f.loc().startswith("lanelet2_io/") and f.cfg and not f.flag("dep")]
    pairs = {}
    for f in fs:
        if f.short in ("save", "load", "save_construct_data", "load_construct_data") and len(f.params) >= 2 and W.isarch(f.ptype(f.params[0])) and f.kind in (None, "func"):
            kind = "data" if f.short.endswith("construct_data") else "handle"
            pairs.setdefault((kind, subject(f)), {})["save" if f.short.startswith("save") else "load"] = f
    c.rule("mirror", "a load function reads items of the same types in the same order, under the same conditions and in the same number as the save function writes", 15)
    c.rule("value", "what is read for an element is put where the saved value was taken from", 30)
    c.rule("count", "a repeated item is written once for every element of the container whose size was written, and read as often as this number says", 4)
    c.rule("layers", "every layer of a map is written and read", 6)
    c.rule("shared", "a regulatory element referenced several times, or while it is being read, is read once and ends up in all places", 8)
    if len([1 for p in pairs.values() if len(p) == 2]) < 12:
        raise AnalysisBroken("only %d pairs of save and load functions found" % len(pairs))

    def name(k):
        return re.sub(r"lanelet::|HybridMap<(\w+::)*", "", k[1])[:40] + (" (data)" if k[0] == "data" else "")

    def short(ts):
        return ", ".join(x["t"].replace("lanelet::", "") if x["k"] == "item" else ("if{%s|%s}" % (short(x["a"]), short(x["b"])) if x["k"] == "if" else "loop{%s}" % short(x["t"]))
                         for x in ts)[:200]

    def key_of(x):
        return P.key(x["f"], x["op"])

    def condition(x, before, writing):
        """(index of the item the condition tests | 'pred' | None, polarity)"""
        f, n, env = x["cond"]
        n = unwrap(f, n)
        pol = True
        while n["k"] == "UnaryOperator" and n.get("op") == "!":
            pol = not pol
            n = unwrap(f, n["c"][0])
        keys = {P.key(f, n)}
        if n["k"] == "DeclRefExpr":
            i = f.vardef(n.get("d", {}).get("id"))
            if isinstance(i, dict):
                keys.add(P.key(f, unwrap(f, i)))
        for i, b in enumerate(before):
            if b["k"] == "item":
                kb = {key_of(b)}
                ob_ = unwrap(b["f"], b["op"])
                if ob_["k"] == "DeclRefExpr":
                    z = b["f"].vardef(ob_.get("d", {}).get("id"))
                    if isinstance(z, dict) and writing:
                        kb.add(P.key(b["f"], unwrap(b["f"], z)))
                if kb & keys:
                    return i, pol
        if n["k"] in CALLS and "Serializ" in (n.get("f") or "") or n["k"] in CALLS and "serializing" in (n.get("f") or "").lower():
            return "pred", pol
        return None, pol

    def compare(pair, k, s, l, bs, bl):
        """returns the list of matched items [(save item, load item)] or reports"""
        out = []
        where = pair["load"].loc()
        if len(s) != len(l) or any(a["k"] != b["k"] for a, b in zip(s, l)):
            c.ob("mirror", False, where, name(k), "%s: written is [%s], read is [%s]" % (name(k), short(s), short(l)), {"type": name(k)})
            return None
        for a, b in zip(s, l):
            if a["k"] == "item":
                if not same(a["t"], b["t"]):
                    c.ob("mirror", False, b["f"].loc(b["n"]), name(k), "%s: item %d is written as %s and read as %s" % (name(k), len(bs), a["t"], b["t"]), {"type": name(k)})
                    return None
                out.append((a, b))
                bs = bs + [a]
                bl = bl + [b]
            elif a["k"] == "if":
                ca, pa = condition(a, bs, True)
                cb, pb = condition(b, bl, False)
                if ca is None or cb is None:
                    if isinstance(ca, int) or isinstance(cb, int) or ca == "pred" or cb == "pred":
                        c.ob("mirror", False, b["f"].loc(b["n"]), name(k) + ":condition", "%s: the condition at line %d is not the one %s depended on" % (name(k), b["n"]["l"], "writing"),
                             {"type": name(k)})
                        return None
                    c.note("%s: conditions at %s and %s not compared" % (name(k), a["f"].loc(a["n"]), b["f"].loc(b["n"])))
                elif ca != cb:
                    c.ob("mirror", False, b["f"].loc(b["n"]), name(k) + ":condition", "%s: the condition at line %d tests another item than the writer's" % (name(k), b["n"]["l"]),
                         {"type": name(k)})
                    return None
                x, y = (b["a"], b["b"]) if pa == pb else (b["b"], b["a"])
                r1 = compare(pair, k, a["a"], x, bs, bl)
                r2 = compare(pair, k, a["b"], y, bs, bl) if r1 is not None else None
                if r1 is None or r2 is None:
                    return None
                out += r1 + r2
            else:
                count(pair, k, a, b, bs, bl)
                r = compare(pair, k, a["t"], b["t"], bs, bl)
                if r is None:
                    return None
                out += r
        return out

    def same(a, b):
        return a == b or a.replace("Const", "") == b.replace("Const", "") and "ollection" in a

    def container_of(f, l, env):
        """term of the container a loop goes through"""
        if l["k"] == "CXXForRangeStmt" or any(v.get("n", "").startswith("__range") for x in wk(f, l) if x["k"] == "DeclStmt" for v in x.get("vars", ())):
            for x in wk(f, l):
                if x["k"] == "DeclStmt":
                    for v in x.get("vars", ()):
                        if v.get("n", "").startswith("__range") and isinstance(v.get("init"), dict):
                            return F.term(f, v["init"], env)
        h = loop_head(P, f, l)
        cn = f.nodes.get(f.cfg["blocks"][h].get("cond")) if h is not None else None
        if cn is not None:
            for x in wk(f, cn):
                if x["k"] in CALLS and last(x.get("f", "")) in ("size", "end", "cend") and call_obj(f, x) is not None:
                    return F.term(f, call_obj(f, x), env)
                if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") == "Var":
                    i = f.vardef(x["d"]["id"])
                    for y in wk(f, i) if isinstance(i, dict) else ():
                        if y["k"] in CALLS and last(y.get("f", "")) in ("size", "end") and call_obj(f, y) is not None:
                            return F.term(f, call_obj(f, y), env)
        return set()

    def count(pair, k, a, b, bs, bl):
        f, n = a["f"], a["n"]
        ct = container_of(f, n, a["env"])
        sizes = []
        for i, x in enumerate(bs):
            if x["k"] == "item":
                for t in F.term(x["f"], x["op"], x["env"]):
                    if t.endswith(".size"):
                        sizes.append((i, t[:-5]))
        hit = [i for i, t in sizes if t in ct]
        w = F.partial(f, n)
        ee = list(early_exits(f, n))
        ok = bool(hit) and not w and not ee
        why = w or ("it is left early at line %d" % ee[0]["l"] if ee else "the number written is that of %s, the items are those of %s" % ("|".join(t for i, t in sizes) or "nothing", "|".join(sorted(ct))))
        if not ct:
            c.note("%s: the loop at %s is not classified" % (name(k), f.loc(n)))
        else:
            c.ob("count", ok, f.loc(n), name(k) + ":write:" + "|".join(sorted(ct)), "%s: the loop at line %d does not write as many items as announced: %s" % (name(k), n["l"], why), {"type": name(k)})
        g, m = b["f"], b["n"]
        h = loop_head(P, g, m)
        cn = g.nodes.get(g.cfg["blocks"][h].get("cond")) if h is not None else None
        w = F.partial(g, m)
        ee = list(early_exits(g, m))
        vids = {y["d"]["id"] for y in wk(g, cn) if y["k"] == "DeclRefExpr" and y.get("d", {}).get("k") in ("Var", "Parm")} if cn is not None else set()
        good = None
        for i, x in enumerate(bl):
            if x["k"] == "item" and x["f"].id == g.id:
                u = unwrap(g, x["op"])
                if u["k"] == "DeclRefExpr" and u["d"]["id"] in vids:
                    good = i
        if good is None:
            # over a container that was given this size
            cc = container_of(g, m, b["env"])
            for y in g.calls():
                if last(y.get("f", "")) == "resize" and call_obj(g, y) is not None and F.term(g, call_obj(g, y), b["env"]) & cc:
                    for i, x in enumerate(bl):
                        if x["k"] == "item" and root_of(g, x["op"]) is not None and root_of(g, x["op"]) == root_of(g, call_args(g, y)[0]):
                            good = i
        if cn is not None and good is not None and cn["k"] == "BinaryOperator" and cn.get("op") not in ("<", "!=", ">") and "__begin" not in P.key(g, cn):
            w = w or "it runs while %s" % cn.get("op")
        off = cn is not None and any(y["k"] == "BinaryOperator" and y.get("op") in ("+", "-") for y in wk(g, cn))
        ok = good is not None and (not hit or good in hit or good == hit[-1]) and not w and not ee and not off
        c.ob("count", ok, g.loc(m), name(k) + ":read:" + "|".join(sorted(ct)), "%s: the loop at line %d does not read as many items as were written%s" %
             (name(k), m["l"], ": " + w if w else ""), {"type": name(k)})

    # ---------------------------------------------------------------- pairs
    for k, pr in sorted(pairs.items(), key=str):
        if len(pr) != 2:
            c.note("%s: %s only" % (name(k), "/".join(pr)))
            continue
        s, l = W.wire(pr["save"]), W.wire(pr["load"])
        if not s:
            raise AnalysisBroken("no items found in %s" % pr["save"].loc())
        m = compare(pr, k, s, l, [], [])
        if m is None:
            continue
        c.ob("mirror", True, pr["load"].loc(), name(k), "", {"type": name(k), "items": short(s)})
        cls = W.klass(k[1])
        f, g = pr["save"], pr["load"]
        loopvars = {root_of(x["f"], x["op"]) for x in flat(l) if x["k"] == "item"}
        for i, (a, b) in enumerate(m):
            src = W.source(a, cls)
            if any(t.endswith(".size") or t == "size" for t in src):
                continue
            dst = None
            o = unwrap(b["f"], b["op"])
            ts = F.term(b["f"], o, b["env"])
            direct = {t for t in ts if re.match(r"^P1\b", t)}
            if direct:
                dst = set()
                for t in direct:
                    p = t[3:].split(".") if len(t) > 2 else [""]
                    h = re.sub(r"\[\]", "", p[0])
                    ms = W.member(cls, h) if h else set()
                    dst |= {".".join([mm + p[0][len(h):]] + p[1:]) for mm in ms} or {".".join(p)}
            else:
                vid, sub = var_path(b["f"], o)
                if vid is None:
                    c.note("%s: destination of item %d not found" % (name(k), i))
                    continue
                h, en = b["f"], b["env"]
                for up, call, en_up in b.get("via", ()):
                    # a helper that returns what it read: the destination is where its result goes
                    if not any(root_of(h, z["c"][0]) == vid for z in h.all("ReturnStmt") if z.get("c")):
                        break
                    v = next((v["id"] for z in up.nodes.values() if z["k"] == "DeclStmt" for v in z.get("vars", ()) if isinstance(v.get("init"), dict) and
                              unwrap(up, v["init"])["i"] == call["i"]), None)
                    h, en, vid = up, en_up, v if v is not None else ("call", call["i"])
                d, used, where = W.sinks(h, vid, en)
                cond = any(y["k"] == "IfStmt" and any(z["k"] == "DeclRefExpr" and z.get("d", {}).get("id") == vid for z in wk(b["f"], W.cond(b["f"], y))) for y in b["f"].all("IfStmt"))
                if b["f"].kind == "lambda" or any(last(n.get("f", "")) in ("insert", "emplace", "push_back", "emplace_back") for n, h in where) or not d:
                    d2 = container_sink(W, Fx, g, b, vid)
                    if d2:
                        d = d | d2
                if not d and used:
                    if k[1].startswith("std::shared_ptr") or any("erializ" in (n.get("f") or "") for n, h in where):
                        pass
                    c.note("%s: destination of item %d (%s) not resolved" % (name(k), i, b["t"]))
                    continue
                if not d and not used:
                    c.ob("value", cond, b["f"].loc(b["n"]), "%s:%s" % (name(k), "|".join(sorted(src))), "%s: what is read for %s is dropped" % (name(k), "|".join(sorted(src))),
                         {"type": name(k), "item": "|".join(sorted(src))})
                    continue
                dst = {x + sub for x in d}
            so = unwrap(a["f"], a["op"])
            if so["k"] == "DeclRefExpr" and isinstance(a["f"].vardef(so.get("d", {}).get("id")), dict):
                so = unwrap(a["f"], a["f"].vardef(so["d"]["id"]))
            if so["k"] in ("CXXBoolLiteralExpr", "IntegerLiteral", "FloatingLiteral", "StringLiteral"):
                c.ob("value", False, a["f"].loc(a["n"]), "%s:constant:%s" % (name(k), "|".join(sorted(dst))), "%s: a constant is written for %s" % (name(k), "|".join(sorted(dst))), {"type": name(k)})
                continue
            if any(t.startswith("?") for t in src):
                c.note("%s: source of item %d not resolved (%s)" % (name(k), i, "|".join(sorted(src))[:60]))
                continue
            norm = lambda x: re.sub(r"_?(?=[\[.]|$)", "", re.sub(r"^data\.", "", x))
            ns, nd = {norm(x) for x in src}, {norm(x) for x in dst}
            ok = bool(ns & nd) or (ns == {""} and nd)
            c.ob("value", ok, b["f"].loc(b["n"]), "%s:%s" % (name(k), "|".join(sorted(src))), "%s: %s is written, but what is read goes to %s" %
                 (name(k), "|".join(sorted(src)), "|".join(sorted(dst))), {"type": name(k), "from": "|".join(sorted(src)), "to": "|".join(sorted(dst))})

    # ---------------------------------------------------------------- layers
    mp = pairs.get(("handle", "lanelet::LaneletMap"), {})
    fields = [x["n"].split("::")[-1] for r in W.recs("lanelet::LaneletMapLayers") for x in r.get("fields", ()) if "Layer" in r["_types"][x["t"]]]
    if len(fields) < 6 or len(mp) != 2:
        raise AnalysisBroken("layers of the map not found")
    written = {t for x in flat(W.wire(mp["save"])) if x["k"] == "item" for t in W.source(x, "lanelet::LaneletMap")}
    for fl in sorted(set(fields)):
        ok = any(t.startswith(fl + "[") for t in written)
        c.ob("layers", ok, mp["save"].loc(), fl, "the binary writer leaves out %s" % fl, {"layer": fl})
    for x in Fx.feeds(mp["load"], lambda h, n: n["k"] in CALLS and last(n.get("f", "")) in ("insert", "emplace") and "unordered_map" in (n.get("f") or "")):
        pr_ = x["argn"]
        ks = set()
        todo = list(pr_)
        while todo:
            y = todo.pop()
            for z in wk(x["f"], y):
                if z["k"] in CALLS and last(z.get("f", "")) in ("getId", "id"):
                    o = call_args(x["f"], z) or [call_obj(x["f"], z)]
                    ks.add(root_of(x["f"], o[0]))
                elif z["k"] == "DeclRefExpr" and z.get("d", {}).get("k") == "Var":
                    i = x["f"].vardef(z["d"]["id"])
                    if isinstance(i, dict):
                        todo.append(i)
        vals = {origin(x["f"], root_of(x["f"], y)) for z in pr_ for y in subexprs(x["f"], z)}
        vals.discard(None)
        c.ob("layers", len(ks) <= 1 and ks <= vals and bool(ks), x["f"].loc(x["call"]), "id:" + x["f"].ptype(x["f"].params[0])[-30:] if x["f"].params else "id",
             "a loaded element is not entered under its own id", {"function": mp["load"].name})
        sk = [s for s in Fx.skips(x)]
        c.ob("layers", not sk, x["f"].loc(x["call"]), "each:" + (x["f"].ptype(x["f"].params[0])[-30:] if x["f"].params else ""),
             "a loaded element may not be entered into its layer: %s" % "; ".join(s[2] for s in sk), {"function": mp["load"].name})

    # ---------------------------------------------------------------- file level
    wr = [f for f in fs if f.name.endswith("BinWriter::write")]
    rd = [f for f in fs if f.name.endswith("BinParser::parse")]
    if wr and rd:
        s, l = W.wire(wr[0]), W.wire(rd[0])
        m = compare({"load": rd[0]}, ("handle", "file"), s, l, [], [])
        if m is not None:
            c.ob("mirror", bool(m), rd[0].loc(), "file", "the file has no items", {"type": "file", "items": short(s)})
            for a, b in m:
                if "LaneletMap" in b["t"]:
                    v = var_path(b["f"], unwrap(b["f"], b["op"]))[0]
                    ok = any(y.get("d", {}).get("id") == v for n in rd[0].all("ReturnStmt") for y in wk(rd[0], n) if y["k"] == "DeclRefExpr") or v is None
                    c.ob("value", ok, b["f"].loc(b["n"]), "file:map", "the map that was read is not the one returned", {"type": "file", "item": "map"})
                else:
                    v = root_of(b["f"], b["op"])
                    src = F.term(a["f"], a["op"], a["env"])
                    reg = [x for x in Fx.feeds(rd[0], lambda h, n: last(n.get("f", "")) == "registerId") if origin(x["f"], root_of(x["f"], x["argn"][0])) == v]
                    ok = any(not Fx.skips(x) for x in reg)
                    c.ob("value", ok, b["f"].loc(b["n"]), "file:ids", "the highest id of the writer is not registered by the reader", {"type": "file", "item": "|".join(src)})

    # ---------------------------------------------------------------- shared regulatory elements
    found = lambda facts, pol: any(y[0] == "isend" and y[2] is (not pol) or y[0] == "true" and y[2] is pol and re.search(r"\.(count|contains)\(", y[1]) or
                                   y[0] == "eq" and y[2] is (not pol) and "end()" in y[1] or
                                   y[0] == "true" and y[2] is (not pol) and re.search(r"(insert|emplace)\(.*\.second$", y[1]) for y in facts)
    for f in fs:
        if f.ret() != "bool" or f.kind != "method" or "erializ" not in last(f.cls or "") or not f.params:
            continue
        for n, st in P.returns(f):
            v = unwrap(f, n["c"][0])
            val = v.get("v")
            if val in (True, "true", 1):
                c.ob("shared", found(st, True), f.loc(n), f.short + ":known", "%s calls an element known that was not seen before" % f.name, {"function": f.name})
            elif val in (False, "false", 0):
                c.ob("shared", found(st, False), f.loc(n), f.short + ":new", "%s calls an element new that was seen before" % f.name, {"function": f.name})
            else:
                c.note("%s: result at %s not classified" % (f.name, f.loc(n)))
        ins = F.feeds(f, lambda h, n: last(n.get("f", "")) in ("insert", "emplace", "try_emplace") and n["k"] in CALLS or n.get("op") == "[]" and "map" in (n.get("f") or ""))
        known = lambda facts: found(facts, True)
        keyok = lambda x: any(re.match(r"^P0(\.id)?$", t) for t in F.args(x))
        c.ob("shared", any(not F.skips(x, known) and keyok(x) for x in ins), f.loc(), f.short + ":remember", "%s does not remember an element it has not seen before" % f.name, {"function": f.name})
        lk = F.feeds(f, lambda h, n: last(n.get("f", "")) in ("find", "count", "contains", "insert", "emplace"))
        c.ob("shared", bool(lk) and all(keyok(x) for x in lk), f.loc(), f.short + ":key", "%s does not look up the id of the element" % f.name, {"function": f.name})
        refs = [p for p in f.params if "shared_ptr" in f.ptype(p) and not f.ptype(p).startswith("const")]
        if refs:
            j = [p["id"] for p in f.params].index(refs[0]["id"])
            absent = lambda facts: found(facts, False)
            done = lambda facts: absent(facts) or any(y[0] in ("true", "null") and y[2] is True and y[1].startswith(("v:", "*")) is not None and "esult" in y[1] or
                                                      y[0] == "eq" and y[2] is False and "null" in y[1] for y in facts)
            open_ = lambda facts: absent(facts) or any(y[0] == "true" and y[2] is False and "esult" in y[1] or y[0] == "eq" and y[2] and "null" in y[1] for y in facts)
            push = F.feeds(f, lambda h, n: last(n.get("f", "")) in ("push_back", "emplace_back", "insert"))
            okp = [x for x in push if any(t == "P%d" % j for a in x["argn"] for t in F.term(x["f"], a, x["env"])) and isaddr(x["f"], x["argn"])]
            asg = F.feeds(f, lambda h, n: n.get("op") == "=" and F.term(h, n["c"][1], {}) == {"P%d" % j})
            c.ob("shared", any(not F.skips(x, done) for x in okp), f.loc(), f.short + ":waiting", "%s does not remember every place that waits for an element being read" % f.name,
                 {"function": f.name})
            c.ob("shared", any(not F.skips(x, open_) for x in asg), f.loc(), f.short + ":reuse", "%s does not hand out the element that was read before" % f.name, {"function": f.name})
            # hand-out only if there is one
            for x in asg:
                w = P.where(f, x["call"])
                st = P.state_at(f, x["call"]) or set()
                c.ob("shared", any(y[0] == "true" and y[2] and "esult" in y[1] or y[0] == "eq" and y[2] is False and "null" in y[1] for y in st), f.loc(x["call"]),
                     f.short + ":ready", "%s hands out an element that is still being read" % f.name, {"function": f.name})
    dn = [f for f in fs if f.kind == "method" and "erializ" in last(f.cls or "") and f.ret() == "void" and f.params and "shared_ptr" in f.ptype(f.params[0])]
    if not dn:
        raise AnalysisBroken("completion of a regulatory element not found")
    for f in dn:
        asg = F.feeds(f, lambda h, n: n.get("op") == "=" and "P0" in F.term(h, n["c"][2], {}))
        kept = {t for x in asg for t in F.term(x["f"], x["call"]["c"][1], x["env"]) if "[]" not in t}
        asg += F.feeds(f, lambda h, n: n.get("op") == "=" and n["k"] == "CXXOperatorCallExpr" and F.term(h, n["c"][2], {}) & kept and
                       not reaches(P, h, n, lambda z: z.get("op") == "=" and z["k"] == "CXXOperatorCallExpr" and "P0" in F.term(h, z["c"][2], {}) and F.term(h, z["c"][1], {}) & kept))
        el = [x for x in asg if any("[]" in t or t.startswith("?") for t in F.term(x["f"], x["call"]["c"][1], x["env"]))]
        res = [x for x in asg if x not in el]
        c.ob("shared", any(not F.skips(x) for x in el), f.loc(), f.short + ":all", "%s does not fill in all places that waited for the element" % f.name, {"function": f.name})
        c.ob("shared", any(not F.skips(x) for x in res), f.loc(), f.short + ":result", "%s does not keep the element for later references" % f.name, {"function": f.name})
        ldr = [h for h in fs if h.short == "load" and subject(h) and "shared_ptr<lanelet::RegulatoryElement>" in subject(h)]
        for h in ldr:
            xs = F.feeds(h, lambda g, n: n.get("f") == f.name)
            early = lambda facts: any(y[0] == "true" and y[2] and "erializing(" in y[1] for y in facts)
            mk = F.feeds(h, lambda g, n: last(n.get("f", "")) == "create" and "Factory" in (n.get("f") or ""))
            ok = any(not F.skips(x, early) and F.args(x) <= {"P1"} | F.args(x) and root_of(h, x["argn"][0]) == h.params[1]["id"] for x in xs)
            c.ob("shared", ok, h.loc(), "load:done", "a regulatory element that was read is not handed to the places that wait for it", {"function": h.name})
            for x in mk:
                ok = any(y["k"] == "DeclRefExpr" for y in wk(h, x["argn"][1]))
                sub = subtype(P, h, x["argn"][0])
                c.ob("shared", sub is not False, h.loc(x["call"]), "load:type", "a regulatory element is created with a type other than its subtype", {"function": h.name})
                it = [b for b in flat(W.wire(h)) if b["k"] == "item" and "RegulatoryElementData" in b["t"]]
                c.ob("value", any(root_of(h, x["argn"][1]) == root_of(h, b["op"]) for b in it), h.loc(x["call"]), "regulatory element:data",
                     "a regulatory element is created from other data than was read", {"function": h.name})
                asg = [n for n in h.nodes.values() if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and root_of(h, n["c"][1]) == h.params[1]["id"] and
                       x["call"]["i"] in subtree_ids(h.node(n["c"][2]))]
                c.ob("value", bool(asg), h.loc(x["call"]), "regulatory element:result", "the created regulatory element is not the one returned", {"function": h.name})
    # the place that waits is the final one
    for k, pr in pairs.items():
        if k[0] != "data" or "load" not in pr:
            continue
        for x in flat(W.wire(pr["load"])):
            if x["k"] == "item" and x["t"].startswith("std::shared_ptr<lanelet::RegulatoryElement>"):
                ts = F.term(x["f"], x["op"], x["env"])
                c.ob("shared", all(re.match(r"^P1\.", t) for t in ts), x["f"].loc(x["n"]), "place:" + name(k), "%s: a regulatory element is read into a temporary, where it is lost if it is completed later" % name(k),
                     {"function": pr["load"].name})
                grow = [n for n in x["f"].calls() if last(n.get("f", "")) in ("push_back", "emplace_back", "resize", "reserve", "insert") and call_obj(x["f"], n) is not None and
                        F.term(x["f"], call_obj(x["f"], n), x["env"]) & {t.replace("[]", "") for t in ts} and
                        any(n["i"] in subtree_ids(body_of(x["f"], lp) or {"i": -1, "c": []}) for lp in loops(x["f"]))]
                c.ob("shared", not grow, x["f"].loc(x["n"]), "move:" + name(k), "%s: the places that wait for regulatory elements are moved while reading" % name(k), {"function": pr["load"].name})


def isaddr(f, argn):
    return any(y["k"] == "UnaryOperator" and y.get("op") == "&" or y["k"] in CALLS and last(y.get("f", "")) == "addressof" for a in argn for y in wk(f, f.node(a)))


def subtype(P, f, n):
    """the expression is derived from the attribute Subtype: True/False/None (unknown)"""
    seen, st = set(), [unwrap(f, n)]
    keys = []
    while st:
        x = st.pop()
        if x["i"] in seen:
            continue
        seen.add(x["i"])
        for y in wk(f, x):
            if y["k"] == "DeclRefExpr":
                d = y.get("d", {})
                if "AttributeName" in str(d.get("n")):
                    keys.append(d["n"])
                if d.get("k") == "Var":
                    i = f.vardef(d["id"])
                    if isinstance(i, dict) and i["i"] not in seen:
                        st.append(i)
            if y["k"] == "StringLiteral" and y.get("v"):
                keys.append(y["v"])
    ks = [k for k in keys if k]
    if not ks:
        return None
    return all(k.split("::")[-1] in ("Subtype", "subtype") for k in ks)


def subexprs(f, n):
    n = unwrap(f, n)
    yield n
    if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr") or n["k"] in CALLS and last(n.get("f", "")) == "make_pair":
        for x in n.get("c", ()):
            if x is not None:
                yield from subexprs(f, x)


def var_path(f, n):
    """(variable, trailing accessors) of an lvalue such as pt.x()"""
    n = unwrap(f, n)
    sub = ""
    for _ in range(6):
        if n["k"] == "DeclRefExpr":
            return n.get("d", {}).get("id"), sub
        if n["k"] in CALLS and call_obj(f, n) is not None and not call_args(f, n):
            nm = last(n.get("f", ""))
            if n.get("op") not in ("*", "->"):
                sub = "." + nm + sub
            n = unwrap(f, call_obj(f, n))
            continue
        if n["k"] in CALLS and n.get("op") in ("*", "->"):
            n = unwrap(f, n["c"][1])
            continue
        if n["k"] == "UnaryOperator" and n.get("op") == "*":
            n = unwrap(f, n["c"][0])
            continue
        if n["k"] == "MemberExpr" and n.get("c"):
            sub = "." + last(n["m"]) + sub
            n = unwrap(f, n["c"][0])
            continue
        return None, sub
    return None, sub


def container_sink(W, F, g, b, vid):
    """b's variable is entered into a container: where does that end up"""
    out = set()
    for x in F.feeds(g, lambda h, n: n["k"] in CALLS and last(n.get("f", "")) in ("insert", "emplace", "push_back", "emplace_back", "insert_or_assign")):
        if x["f"].id != b["f"].id:
            continue
        if not any(root_of(x["f"], y) == vid for a in x["argn"] for y in subexprs(x["f"], a)):
            continue
        if b["env"] != x["env"] and {k: str(v) for k, v in b["env"].items()} != {k: str(v) for k, v in x["env"].items()}:
            continue
        o = call_obj(x["f"], x["call"])
        o = unwrap(x["f"], o)
        h, en, e = x["f"], x["env"], o
        for _ in range(5):
            if e["k"] == "DeclRefExpr" and e["d"]["id"] in en and isinstance(en[e["d"]["id"]][0], Func):
                h, e2, en = en[e["d"]["id"]]
                e = unwrap(h, e2)
                continue
            break
        if e["k"] == "DeclRefExpr":
            d, used, where = W.sinks(h, e["d"]["id"], en)
            out |= {t + "[]" for t in d}
    return out


def flat(ts):
    for x in ts:
        yield x
        if x["k"] == "if":
            yield from flat(x["a"])
            yield from flat(x["b"])
        elif x["k"] == "loop":
            yield from flat(x["t"])
