"""What is handed to a function, expressed in what the caller was given.

feeds(f, want) lists the calls `want` accepts that running f performs, through lambdas and helper functions, and describes each
argument by a term over f's parameters and *this:
    P0, P1, ..., this          the parameters and the object
    t.name                     the result of accessor / the field `name` of t
    t[]                        every element of t
Dereferencing, copies, casts, lock(), views on the same data and mutable versions of const views are transparent.
For every call it says whether it is performed for every element on every path: `skips` lists (function, block path) pairs on which
it is not, after cutting the edges the rule regards as legitimate."""
import re
from .core import *
from .paths import *

SAME = {"lock", "constData", "data", "get", "move", "forward", "as_const", "cref", "ref", "to2D", "to3D", "toConst", "const_pointer_cast",
        "static_pointer_cast", "dynamic_pointer_cast", "operator*", "operator->", "make_move_iterator", "toHybrid", "operator()", "value", "invert"}
BEGIN = {"begin", "cbegin", "rbegin", "crbegin"}
FOREACH = {"for_each", "transform", "any_of", "all_of", "none_of", "find_if", "copy_if", "generate", "accumulate"}
GROW = {"push_back", "emplace_back", "insert", "emplace", "push_front"}


def last(q):
    return re.sub(r"<.*", "", q or "").rsplit("::", 1)[-1]


def rets(P, g):
    return [f.node(n["c"][0]) for f in (g,) for n in g.all("ReturnStmt") if n.get("c") and n["c"][0] is not None]


class Feeds:
    def __init__(self, P, prune=None, inline=None, maxdepth=6):
        self.P, self.prune, self.maxdepth = P, prune, maxdepth
        self.inline = inline or (lambda g: True)
        self._calls = {}

    # ---------------------------------------------------------------- terms
    def term(self, f, n, env, d=0):
        """set of terms an expression may denote"""
        if n is None or d > 90:
            return {"?"}
        n = unwrap(f, n)
        k = n["k"]
        t = lambda x: self.term(f, x, env, d + 1)
        if k == "CXXThisExpr":
            if "this" in env:
                g, e, en = env["this"]
                return self.term(g, e, en, d + 1)
            return {"this"}
        if k == "DeclRefExpr":
            dd = n.get("d", {})
            if dd.get("k") in ("Var", "Parm"):
                return self.var(f, dd["id"], env, d + 1)
            return {"g:" + str(dd.get("n"))}
        if k == "MemberExpr":
            b = n["c"][0] if n.get("c") else None
            base = t(b) if b is not None else {"this"}
            return {x + "." + last(n["m"]) for x in base}
        if k == "UnaryOperator":
            if n.get("op") in ("*", "&", "++", "--"):
                return t(n["c"][0])
            return {"?"}
        if k == "ConditionalOperator":
            return t(n["c"][1]) | t(n["c"][2])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ExprWithCleanups",
                 "ParenExpr", "CXXStdInitializerListExpr"):
            c = [x for x in n.get("c", ()) if x is not None and f.node(x)["k"] != "CXXDefaultArgExpr"]
            if not c:
                return {"new:" + re.sub(r"^const ", "", f.type(n))}
            r = t(c[0])
            if len(c) > 1 and (k == "InitListExpr" or n.get("f") == "std::pair::pair" and "iterator" not in f.type(n)):
                for x in c[1:]:
                    r = r | t(x)
            return r
        if k in CALLS:
            q = n.get("f", "")
            nm = last(q)
            o, a = call_obj(f, n), call_args(f, n)
            if n.get("op") in ("*", "->", "++", "--") and (o is not None or a):
                return t(o if o is not None else a[0])
            if n.get("op") == "[]" and o is not None:
                return {x + "[]" for x in t(o)}
            if nm in BEGIN or nm in ("front", "back", "at"):
                src = o if o is not None else (a[0] if a else None)
                return self.elems(f, src, env, d + 1)
            if nm in ("make_pair", "make_tuple") and a:
                return t(a[0])
            if nm in SAME:
                src = o if o is not None else (a[0] if a else None)
                return t(src) if src is not None else {"?"}
            if nm == "static_cast" and a:
                return t(a[0])
            if nm in ("make_shared", "make_unique"):
                return {"new:" + nm}
            lam = self.closure(f, n, env)
            if lam is not None:
                r = set()
                for g, en in lam:
                    for x in rets(self.P, g):
                        r |= self.term(g, x, en, d + 1)
                return r or {"?"}
            if o is not None:
                return {x + "." + nm for x in t(o)}
            if a and nm.startswith("operator "):
                return t(a[0])
            for g in self.P.targets(n):
                rs = [x for x in rets(self.P, g) if x is not None]
                if self.inline(g) and rs and d < 45:
                    en = self.bind(f, n, g, env)
                    r = set()
                    for x in rs:
                        r |= self.term(g, x, en, d + 1)
                    return r
            return {q + "(" + ",".join("|".join(sorted(t(x))) for x in a) + ")"}
        return {"?"}

    def var(self, f, vid, env, d):
        if vid in env:
            g, e, en = env[vid]
            if g == "elems":
                r = set()
                for (h, x, en2) in e:
                    r |= self.elems(h, x, en2, d + 1)
                return r
            if g == "term":
                return {e}
            if g == "lam":
                return {"lambda"}
            return self.term(g, e, en, d + 1)
        g = f
        init = None
        for h in self.owners(f):
            i = h.vardef(vid)
            if i is not None:
                init, g = i, h
                break
        if init is not None and isinstance(init, dict):
            return self.term(g, init, env, d + 1)
        for i, p in enumerate(f.params):
            if p["id"] == vid:
                return {"P%d" % i}
        return {"v:" + vid.split("#")[0]}

    def owners(self, f):
        o = [f]
        # a lambda sees the variables of the function around it
        for g, n in self.P.callers().get(f.id, ()):
            if f.id in n.get("lam", ()):
                for x in self.owners(g):
                    if x not in o:
                        o.append(x)
        return o

    def elems(self, f, n, env, d=0):
        """terms of the elements of a container expression"""
        if n is None or d > 90:
            return {"?"}
        n = unwrap(f, n)
        k = n["k"]
        if k == "DeclRefExpr" and n.get("d", {}).get("k") in ("Var", "Parm"):
            vid = n["d"]["id"]
            if vid in env:
                g, e, en = env[vid]
                if isinstance(g, Func):
                    return self.elems(g, e, en, d + 1)
            else:
                r = set()
                for h in self.owners(f):
                    i = h.vardef(vid)
                    if isinstance(i, dict):
                        r |= {x for x in self.elems(h, i, env, d + 1) if not x.startswith("new:")}
                        top = h
                        for (g, en, a) in self.pushes(top, vid, env):
                            r |= self.term(g, a, en, d + 1)
                        break
                else:
                    for h in self.owners(f):
                        if any(v["id"] == vid for x in h.all("DeclStmt") for v in x.get("vars", ())):
                            for (g, en, a) in self.pushes(h, vid, env):
                                r |= self.term(g, a, en, d + 1)
                if r:
                    return r
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            c = [x for x in n.get("c", ()) if x is not None and f.node(x)["k"] != "CXXDefaultArgExpr"]
            if not c:
                return set()
            if k != "InitListExpr" and len(c) == 1:
                return self.elems(f, c[0], env, d + 1)
            if k != "InitListExpr" and f.node(c[0])["k"] in CALLS and last(f.node(c[0]).get("f", "")) in BEGIN | {"make_move_iterator"}:
                return self.term(f, c[0], env, d + 1)
            r = set()
            for x in c:
                r |= self.term(f, x, env, d + 1)
            return r
        if k in CALLS:
            nm = last(n.get("f", ""))
            a = call_args(f, n)
            if nm in ("concatenateRange", "concatenate", "transform") and n.get("f", "").startswith("lanelet::"):
                if nm == "concatenate" and len(a) == 1:
                    return {x + "[]" for x in self.elems(f, a[0], env, d + 1)}
                src = [(f, a[0], env)] if nm != "transform" or len(a) < 3 else None
                fn = a[1] if src else a[2]
                r = set()
                for g, en in self.lam_of(f, fn, env):
                    en = dict(en)
                    if g.params:
                        en[g.params[0]["id"]] = ("elems", src, None) if src else (f, a[0], env)
                    for x in rets(self.P, g):
                        if nm == "concatenate":
                            r |= self.elems(g, x, en, d + 1)
                        else:
                            r |= self.term(g, x, en, d + 1)
                return r or {"?"}
            lam = self.closure(f, n, env)
            gs = [(g, self.bind(f, n, g, env)) for g in self.P.targets(n) if self.inline(g)] if lam is None and call_obj(f, n) is None else (lam or [])
            if gs and (lam is not None or nm not in SAME) and d < 45:
                r = set()
                for g, en in gs:
                    for x in rets(self.P, g):
                        if x is not None:
                            r |= self.elems(g, x, en, d + 1)
                if r:
                    return r
        return {x + "[]" for x in self.term(f, n, env, d + 1)}

    def pushes(self, top, vid, env):
        """(function, env, argument) of everything put into a local container"""
        out = []

        def want(f, n):
            if n["k"] in CALLS and last(n.get("f", "")) in GROW:
                o = call_obj(f, n)
                return o is not None and self.rootid(f, o) == vid
            return False
        def copies(f, n):
            if n["k"] in CALLS and last(n.get("f", "")) in ("transform", "copy", "copy_if", "move") and len(call_args(f, n)) >= 3:
                b = unwrap(f, call_args(f, n)[2])
                return b["k"] in CALLS and last(b.get("f", "")) in ("back_inserter", "inserter") and self.rootid(f, call_args(f, b)[0]) == vid
            return False
        for x in self.feeds(top, copies, env, grow=True):
            a = x["argn"]
            if last(x["call"]["f"]) == "transform" and len(a) > 3:
                for g, en in self.lam_of(x["f"], a[3], x["env"]):
                    en = dict(en)
                    if g.params:
                        en[g.params[0]["id"]] = (x["f"], a[0], x["env"])
                    for r in rets(self.P, g):
                        out.append((g, en, r))
            else:
                out.append((x["f"], x["env"], a[0]))
        for x in self.feeds(top, want, env, grow=True):
            nm = last(x["call"].get("f", ""))
            a = x["argn"]
            if not a:
                continue
            if nm == "insert" and len(a) == 3:
                out.append((x["f"], x["env"], a[1]))
            elif nm == "insert" and len(a) == 2 and last((x["f"].node(a[1])).get("f", "")) in ("end", "begin"):
                out.append((x["f"], x["env"], a[0]))
            elif nm == "insert" and len(a) == 2:
                out.append((x["f"], x["env"], a[1]))
            else:
                out.append((x["f"], x["env"], a[0]))
        return out

    def rootid(self, f, o):
        o = unwrap(f, o)
        while o["k"] in ("MemberExpr", "UnaryOperator", "CXXOperatorCallExpr") and o.get("c"):
            o = unwrap(f, f.node(o["c"][-1] if o["k"] == "CXXOperatorCallExpr" else o["c"][0]))
        return o.get("d", {}).get("id") if o["k"] == "DeclRefExpr" else None

    # ---------------------------------------------------------------- closures
    def lam_of(self, f, n, env):
        """(lambda, env) a callable expression denotes"""
        n = unwrap(f, n)
        if n["k"] == "LambdaExpr":
            return [(g, env) for g in self.P.lambdas(n)]
        if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") in ("Var", "Parm"):
            vid = n["d"]["id"]
            if vid in env:
                g, e, en = env[vid]
                return self.lam_of(g, e, en) if isinstance(g, Func) else []
            for h in self.owners(f):
                i = h.vardef(vid)
                if isinstance(i, dict):
                    return self.lam_of(h, i, env)
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and n.get("c"):
            return self.lam_of(f, n["c"][0], env)
        return []

    def closure(self, f, n, env):
        """(lambda, env with bound parameters) if a call calls a lambda"""
        if n.get("op") != "()":
            return None
        o = call_obj(f, n)
        if o is None:
            o = f.node(n["c"][1]) if len(n["c"]) > 1 else None
        if o is None:
            return None
        ls = self.lam_of(f, o, env)
        if not ls:
            return None
        ids = {g.id for g in self.P.targets(n)}
        out = []
        args = [f.node(x) for x in n["c"][2:]]
        for g, en in ls:
            if ids and g.id not in ids and any(h.id in ids for h, _ in ls):
                continue
            en = dict(en)
            for p, a in zip(g.params, args):
                en[p["id"]] = (f, a, env)
            out.append((g, en))
        return out

    def bind(self, f, n, g, env):
        en = {}
        for p, a in zip(g.params, call_args(f, n)):
            en[p["id"]] = (f, a, env)
        o = call_obj(f, n)
        if o is not None:
            en["this"] = (f, o, env)
        elif "this" in env:
            en["this"] = env["this"]
        return en

    # ---------------------------------------------------------------- feeds
    def feeds(self, f, want, env=None, grow=False):
        out = []
        self._walk(f, want, env or {}, out, (), 0, grow, (f.id,))
        return out

    def _walk(self, f, want, env, out, outer, d, grow, stack):
        P = self.P
        for n in sorted((x for x in f.nodes.values() if x["k"] in CALLS or x["k"] == "CXXConstructExpr" or x["k"] == "CXXTemporaryObjectExpr"),
                        key=lambda x: x["i"]):
            if want(f, n):
                a = call_args(f, n)
                out.append({"call": n, "f": f, "env": env, "argn": a, "outer": outer + ((f, n),)})
                continue
            if d >= self.maxdepth or n["k"] not in CALLS:
                continue
            nm = last(n.get("f", ""))
            a = call_args(f, n)
            lam = self.closure(f, n, env)
            if lam is not None:
                for g, en in lam:
                    if g.id not in stack:
                        self._walk(g, want, en, out, outer + ((f, n),), d + 1, grow, stack + (g.id,))
                continue
            if nm in FOREACH and not n.get("f", "").startswith("lanelet::") and len(a) >= 3:
                for i, x in enumerate(a):
                    for g, en in self.lam_of(f, x, env):
                        en = dict(en)
                        if g.params:
                            en[g.params[-1 if nm == "accumulate" else 0]["id"]] = (f, a[0], env)
                        if g.id not in stack:
                            self._walk(g, want, en, out, outer + ((f, n),), d + 1, grow, stack + (g.id,))
                continue
            for g in P.targets(n):
                if g.id in stack or n.get("fvirt") or not self.inline(g) or not g.cfg or (grow and "utils" not in g.name):
                    continue
                self._walk(g, want, self.bind(f, n, g, env), out, outer + ((f, n),), d + 1, grow, stack + (g.id,))

    def args(self, x, i=0, elems=False):
        if len(x["argn"]) <= i:
            return set()
        return (self.elems if elems else self.term)(x["f"], x["argn"][i], x["env"])

    # ---------------------------------------------------------------- is it always performed?
    def skips(self, x, prune=None):
        """[(function, why)] for every level at which the call may be left out"""
        out = []
        for f, n in x["outer"]:
            w = self.skip(f, n, prune or self.prune)
            if w:
                out.append((f, n, w))
        return out

    def skip(self, f, n, prune=None):
        P = self.P
        loops_ = [l for l in loops(f) if n["i"] in subtree_ids(body_of(f, l) or {"i": -1, "c": []})]
        loops_.sort(key=lambda l: -len(subtree_ids(l)))
        target = n["i"]
        start = None
        for l in loops_:
            # the loop is reached
            h = loop_head(P, f, l)
            if h is None:
                return "loop without condition"
            w = self.partial(f, l)
            if w:
                return w
            # inside the loop, every iteration gets there, and none ends the loop early
            for e in early_exits(f, l):
                if not (prune and self._pruned(f, e, prune)):
                    return "the loop at line %d is left early at line %d" % (l["l"], e["l"])
        # levels: entry -> head of the outermost loop -> ... -> n
        chain = [loop_head(P, f, l) for l in loops_]
        cur = None
        for h in chain:
            p = self._avoid(f, cur, h, prune)
            if p:
                return "the loop at line %s is not reached on every path" % f.cfg["blocks"][h].get("l", "?")
            cur = loop_body_entry(P, f, loops_[chain.index(h)])
        goals = {chain[-1]} if chain else None
        p = escape(P, f, cur, lambda y: y["i"] == target, prune, goals)
        if p:
            return "a path does not get to line %d" % n["l"]
        return None

    def partial(self, f, l):
        """a counting loop that leaves out elements at either end"""
        if l["k"] != "ForStmt":
            return None
        h = loop_head(self.P, f, l)
        cn = f.nodes.get(f.cfg["blocks"][h].get("cond")) if h is not None else None
        c = [x for x in l.get("c", ()) if x is not None]
        for d in c[:1]:
            d = f.node(d)
            for v in d.get("vars", ()) if d["k"] == "DeclStmt" else ():
                i = v.get("init")
                if i is not None and re.search(r"\b(int|long|unsigned|size_t)\b", f.type(v)):
                    x = const_int(f, f.node(i))
                    if x is not None and x > 0:
                        return "the loop at line %d starts at element %d" % (l["l"], x)
        if cn is not None and cn["k"] == "BinaryOperator" and cn.get("op") in ("<", "!="):
            a, b = unwrap(f, cn["c"][0]), unwrap(f, cn["c"][1])
            for x, op in ((a, "+"), (b, "-")):
                if x["k"] == "BinaryOperator" and x.get("op") == op and (const_int(f, f.node(x["c"][1])) or 0) > 0 and "size()" in self.P.key(f, cn):
                    return "the loop at line %d ends before the last element" % l["l"]
        return None

    def _avoid(self, f, start, block, prune):
        """path from start to the exit that avoids a block"""
        B = f.cfg["blocks"]
        s0 = f.cfg["entry"] if start is None else start
        if s0 == block:
            return None
        seen, st = {s0}, [s0]
        while st:
            b = st.pop()
            if b == f.cfg["exit"]:
                return True
            if throws(f, B[b]):
                continue
            for si, s in enumerate(B[b]["s"]):
                if s is None or s in seen or s == block:
                    continue
                if prune and prune(edge_facts(self.P, f, b, si)):
                    continue
                seen.add(s)
                st.append(s)
        return None

    def _pruned(self, f, e, prune):
        try:
            st = self.P.state_at(f, e)
        except Exception:
            return False
        return bool(st) and prune(st)
