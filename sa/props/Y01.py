"""Y01 Python names call the C++ functions of the same name.

The module initialisation functions are read as tables: every def, property, keyword list and enum value that they hand to
Boost.Python.  Each entry is resolved to the C++ function, field, lambda or wrapper behind it (through local pointers,
make_function, make_constructor and wrapper templates), and the table is compared with the declarations it binds."""
import re
from ..facts import AnalysisBroken
from ..core import CALLS, call_args, call_obj, unwrap, walk, root_var
from ..feeds import last
from .V02 import wk

BP = "boost::python::"
DUNDER = {"__add__": {"+"}, "__sub__": {"-"}, "__mul__": {"*"}, "__rmul__": {"*"}, "__div__": {"/"}, "__truediv__": {"/"},
          "__eq__": {"=="}, "__ne__": {"!="}, "__lt__": {"<"}, "__gt__": {">"}, "__le__": {"<="}, "__ge__": {">="},
          "__neg__": {"-"}, "__radd__": {"+"}, "__iadd__": {"+=", "+"}, "__isub__": {"-=", "-"}}
SYN = {"__len__": {"size", "numel", "length"}, "__contains__": {"exists", "contains", "has", "find", "count"},
       "__iter__": {"iterator", "begin", "range"}, "__getitem__": {"at", "get", "operator[]", "getItem", "find"}}
UNIT = {"mps": "mps", "kmh": "kmh", "kph": "kmh", "rad": "rad", "deg": "deg"}
RESERVED = {"None", "True", "False", "and", "or", "not", "is", "in", "if", "else", "for", "while", "class", "def", "del", "from",
            "global", "import", "lambda", "pass", "return", "try", "with", "yield", "as", "assert", "break", "continue",
            "except", "finally", "raise", "nonlocal", "async", "await", "elif"}


def targ(t):
    """first template argument of a type string"""
    i = t.find("<")
    if i < 0:
        return None
    d, out = 0, ""
    for ch in t[i:]:
        if ch in "<([":
            d += 1
            if d == 1:
                continue
        elif ch in ">)]":
            d -= 1
            if d == 0:
                break
        elif ch == "," and d == 1:
            break
        out += ch
    return out.strip()


def tokens(s):
    s = re.sub(r"_+", " ", s)
    s = re.sub(r"([a-z0-9])([A-Z])", r"\1 \2", s)
    s = re.sub(r"([A-Z]+)([A-Z][a-z])", r"\1 \2", s)
    return [x.lower() for x in s.split()]


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def bare(t):
    t = re.sub(r"\b(const|class|struct)\b", "", t).replace("&", "").replace("*", "").strip()
    return re.sub(r"\s+", " ", t)


class Bind:
    __slots__ = ("f", "n", "kind", "cls", "name", "targets", "kw", "loc", "ctor", "nameline", "doc")


def run(c):
    P = c.program("core", "io", "projection", "traffic_rules", "routing", "matching", "python")
    X = Run(c, P)
    X.names()
    X.pairs()
    X.keywords()
    X.defaults()
    X.units()
    X.wrappers()
    X.enums()
    X.overrides()


class Run:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.py = [f for f in P.funcs.values() if "/lanelet2_python/" in f.file and f.cfg and not f.flag("dep")]
        self.pyids = {f.id for f in self.py}
        self.bases_of = {}
        self.members = {}
        self.libnames = {}
        for f in P.funcs.values():
            if f.kind == "func" and not f.flag("dep") and "/lanelet2_python/" not in f.file:
                self.libnames.setdefault(f.short, []).append(f)
        self.aliases = {}
        self.implicit = set()
        self.binds = []
        for f in self.py:
            for n in f.nodes.values():
                if n["k"] in CALLS:
                    self.collect(f, n)
        seen, out = set(), []
        for b in self.binds:
            k = (b.loc, b.kind, b.cls, b.name)
            if k in seen:
                continue
            seen.add(k)
            out.append(b)
        self.binds = out
        if len(self.binds) < 100:
            raise AnalysisBroken("the Python bindings vanished (%d found)" % len(self.binds))
        c.analysed["bindings"] = len(self.binds)

    # -------------------------------------------------- the tables
    def collect(self, f, n):
        q = n.get("f", "")
        if not q.startswith(BP):
            return
        s = last(q)
        if s == "implicitly_convertible" and n.get("fta"):
            self.implicit.add(tuple(bare(x) for x in n["fta"][:2]))
            return
        if q == BP + "def" or (q.startswith(BP + "class_::") and s in (
                "def", "add_property", "add_static_property", "def_readwrite", "def_readonly", "staticmethod")) or \
                q == BP + "enum_::value":
            pass
        else:
            if q == BP + "class_::class_" or (q == BP + "init::init" and False):
                self.ctor_of_class(f, n)
            return
        args = [f.node(a) for a in call_args(f, n)]
        if q == BP + "class_::def" and args and self.is_init(f, args[0]):
            self.init(f, n, args[0])
            return
        if not args or args[0]["k"] != "StringLiteral":
            return
        b = Bind()
        b.f, b.n, b.name, b.loc = f, n, args[0]["v"], f.loc(args[0])
        b.cls = None
        if q != BP + "def":
            o = call_obj(f, n)
            b.cls = targ(f.type(o)) if o is not None else None
        b.kind = {"add_property": "prop", "add_static_property": "sprop", "def_readwrite": "rw", "def_readonly": "ro",
                  "value": "enum"}.get(s, "def")
        b.kw, b.targets, b.ctor, b.doc = None, [], False, ""
        for a in args[1:]:
            if a["k"] == "StringLiteral":
                b.doc += a["v"]
            if a["k"] == "CXXDefaultArgExpr" or a["k"] == "StringLiteral":
                continue
            k = self.kwlist(f, a)
            if k is not None:
                b.kw = k
                continue
            if re.search(r"\b(return_value_policy|return_internal_reference|default_call_policies|with_custodian)", f.type(a)):
                continue
            t = self.target(f, a)
            if t is None and b.kind in ("prop", "sprop"):
                b.targets.append(None)
            if t is not None:
                if t[0] == "ctor":
                    b.ctor = True
                    if t[2] is not None:
                        b.kw = t[2]
                    t = t[1]
                    if t is None:
                        continue
                b.targets.append(t)
        self.binds.append(b)

    def is_init(self, f, a):
        return re.match(r"(const )?boost::python::init<", f.type(unwrap(f, a)))

    def init(self, f, n, a):
        o = call_obj(f, n)
        self.initb(f, n, targ(f.type(o)) if o is not None else None, a)

    def ctor_of_class(self, f, n):
        for a in n.get("c", ()):
            a = f.node(a)
            if a and self.is_init(f, a):
                self.initb(f, n, targ(f.type(n)), a)

    def initb(self, f, n, cls, a):
        a = unwrap(f, a)
        kw = None
        for x in wk(f, a):
            k = self.kwlist(f, x)
            if k is not None:
                kw = k
                break
        t = f.type(a)
        b = Bind()
        b.f, b.n, b.name, b.loc, b.cls, b.kind, b.kw, b.ctor, b.doc = f, n, "__init__", f.loc(a), cls, "init", kw, True, t
        b.targets = []
        self.binds.append(b)

    def kwlist(self, f, a):
        """the keywords of an expression: [(name, default node or None)]"""
        a = f.node(a)
        if a is None or not re.search(r"boost::python::(detail::keywords<|arg\b|args\b)", f.type(a)):
            return None
        k = a["k"]
        if k == "DeclRefExpr" and a.get("d", {}).get("k") == "Var":
            v = f.vardef(a["d"]["id"])
            return self.kwlist(f, v) if v is not None else None
        if k == "CXXOperatorCallExpr":
            ar = [x for x in a.get("c", ()) if x is not None][1:]
            if a.get("op") == "," and len(ar) == 2:
                l, r = self.kwlist(f, ar[0]), self.kwlist(f, ar[1])
                return None if l is None or r is None else l + r
            if a.get("op") == "=" and len(ar) == 2:
                l = self.kwlist(f, ar[0])
                return None if not l else l[:-1] + [(l[-1][0], f.node(ar[1]))]
        ss = [x for x in wk(f, a) if x["k"] == "StringLiteral"]
        if k in ("CXXFunctionalCastExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CallExpr", "CXXBindTemporaryExpr", "ParenExpr"):
            if len(ss) == 1 and k != "ParenExpr":
                return [(ss[0]["v"], None)]
            cs = [x for x in a.get("c", ()) if x is not None]
            if len(cs) == 1:
                return self.kwlist(f, cs[0])
            if k == "CallExpr" and last(a.get("f", "")) == "args":
                return [(x["v"], None) for x in ss]
        return None

    def target(self, f, a, env=None):
        """what an argument names: ("fn", Func or None, usr, name) / ("field", qualified name)"""
        a = f.node(a)
        for _ in range(20):
            if a is None:
                return None
            k = a["k"]
            if k == "DeclRefExpr":
                d = a["d"]
                if d["k"] == "Function":
                    return ("fn", self.P.funcs.get(d["id"]), d["id"], d["n"], f.type(a))
                if d["k"] == "Field":
                    return ("field", None, None, d["n"], f.type(a))
                if d["k"] == "Enum":
                    return ("enum", None, None, d["n"], f.type(a))
                if d["k"] == "Var":
                    v = f.vardef(d["id"])
                    if v is not None:
                        a = f.node(v)
                        continue
                if d["k"] == "Parm" and env and d["id"] in env:
                    return self.target(*env[d["id"]])
                if d["k"] == "Global":
                    return self.globalinit(d["n"], f.type(a))
                return None
            if k == "LambdaExpr":
                l = self.P.lambdas(a)
                return ("fn", l[0], l[0].id, "lambda", f.type(a)) if l else None
            if k in CALLS:
                q = a.get("f", "")
                if q == BP + "make_constructor":
                    ar = call_args(f, a)
                    kw = None
                    for x in ar[1:]:
                        kk = self.kwlist(f, x)
                        kw = kk if kk is not None else kw
                    return ("ctor", self.target(f, ar[0]), kw)
                if q in (BP + "make_function", BP + "make_getter", BP + "make_setter", BP + "pure_virtual"):
                    a = f.node(call_args(f, a)[0])
                    continue
                if k == "CXXMemberCallExpr":
                    o = call_obj(f, a)
                    if o is not None and "::operator " in q:
                        a = f.node(o)
                        continue
                g = self.P.funcs.get(a.get("fid"))
                if g is not None and g.id in self.pyids and not a.get("ctor"):
                    rs = [r for r in g.all("ReturnStmt")]
                    if len(rs) == 1 and rs[0].get("c"):
                        e = dict(env or {})
                        for p, x in zip(g.params, call_args(f, a)):
                            e[p["id"]] = (f, x, env)
                        t = self.target(g, rs[0]["c"][0], e)
                        if t is not None:
                            return t
                return None
            cs = [x for x in a.get("c", ()) if x is not None]
            if k in ("UnaryOperator", "CXXStaticCastExpr", "CStyleCastExpr", "ParenExpr", "CXXFunctionalCastExpr",
                     "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXReinterpretCastExpr") and len(cs) >= 1:
                a = f.node(cs[-1])
                continue
            return None
        return None

    def globalinit(self, name, ty):
        for v in (self.P.vars.values() if isinstance(self.P.vars, dict) else self.P.vars):
            if v["name"] == name and v.get("init") is not None:
                for x in walk(v["init"]):
                    d = x.get("d") or {}
                    if d.get("k") == "Function":
                        return ("fn", self.P.funcs.get(d["id"]), d["id"], d["n"], ty)
        return None

    # -------------------------------------------------- what is behind an entry
    def recs(self, q):
        """the class of a type string and its bases"""
        if not hasattr(self, "_bt"):
            self._bt = {}
            for rs in self.P.recbyname.values():
                for r in rs:
                    if not r.get("dep"):
                        self._bt.setdefault(bare(r.get("type", "")), r)
        out, todo, seen = [], [bare(q)], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            r = self._bt.get(x)
            if r is None:
                rs = [y for y in self.P.recbyname.get(x, ()) if not y.get("dep")]
                r = rs[0] if rs else None
            if r is not None:
                out.append(r)
                for b in r.get("bases", ()):
                    todo.append(bare(b.get("t", "")))
        return out

    def mem(self, q):
        """names of the public members of a class and its bases"""
        if q not in self.members:
            s = {}
            for r in self.recs(q):
                for u in r.get("methods", ()):
                    m = re.search(r"@F@(~?\w+)", u[u.rfind("@F@"):] if "@F@" in u else "")
                    if m and not m.group(1).startswith("~"):
                        s.setdefault(m.group(1), set()).add("m")
                for fl in r.get("fields", ()):
                    if fl.get("acc") == "public" or fl.get("acc") is None:
                        s.setdefault(fl["n"], set()).add("f")
            self.members[q] = s
        return self.members[q]

    def used(self, g, depth=3, seen=None):
        """names of the library functions, methods and fields a wrapper uses, and the operators in it"""
        seen = seen if seen is not None else set()
        out = set()
        if g is None or g.id in seen or depth < 0:
            return out
        seen.add(g.id)
        for n in g.nodes.values():
            k = n["k"]
            if k in CALLS:
                q = n.get("f", "")
                if n.get("op"):
                    out.add("op:" + n["op"])
                if q.startswith("std::get"):
                    pass
                h = self.P.funcs.get(n.get("fid"))
                if h is not None and h.id in self.pyids:
                    out |= self.used(h, depth - 1, seen)
                    out.add("w:" + last(q))
                if q:
                    out.add(last(q))
            elif k == "MemberExpr":
                out.add(last(n.get("m", "")))
            elif k == "DeclRefExpr" and n.get("d", {}).get("k") in ("Function", "Field"):
                out.add(last(n["d"]["n"]))
            elif k in ("BinaryOperator", "UnaryOperator", "CompoundAssignOperator"):
                out.add("op:" + n.get("op", ""))
            if k == "LambdaExpr":
                for l in self.P.lambdas(n):
                    out |= self.used(l, depth - 1, seen)
        return out

    def names_of(self, t):
        """names behind a target"""
        if t[0] in ("field", "enum"):
            return {last(t[3])}
        out = set()
        if t[1] is not None and t[1].id in self.pyids:
            out |= self.used(t[1])
            if t[3] != "lambda":
                out.add("w:" + last(t[3]))
        else:
            out.add(last(t[3]))
        return out

    def lib_target(self, t):
        return t[0] in ("field", "enum") or not (t[1] is not None and t[1].id in self.pyids)

    def key(self, b):
        return "%s.%s" % (last(re.sub(r"<.*", "", b.cls)) if b.cls else "", b.name)

    def at(self, b):
        return {"file": b.loc.rsplit(":", 1)[0], "loc": b.loc}

    def score(self, a, b):
        x, y = set(tokens(a)), set(tokens(b))
        return len(x & y) / max(1, len(x | y))

    # -------------------------------------------------- names
    def names(self):
        c = self.c
        c.rule("Y01.name", "a Python name that is the name of a member (or function) of what it is bound to reaches that very "
               "member; other names are not closer to another member than to the one they reach", 150)
        c.rule("Y01.dim", "a free function whose name says 2d or 3d is bound to that many dimensions", 20)
        c.rule("Y01.op", "operators (__add__, __len__, ...) reach the operation they are named after", 10)
        for b in self.binds:
            if b.kind in ("init", "enum") or b.name == "__init__" or not b.targets or b.targets[0] is None:
                continue
            k = self.key(b)
            T = self.names_of(b.targets[0])
            if b.name.startswith("__"):
                self.dunder(b, T, k)
                continue
            plain = {x for x in T if not x.startswith(("op:", "w:"))}
            if not b.cls:
                N = b.name
                alts = {N, N + "2d", N + "3d"} | ({N[:-2]} if N[-2:] in ("2d", "3d") else set())
                alts |= {"get" + N[0].upper() + N[1:]}
                known = {a for a in alts if a in self.libnames} or ({N} & self.libnames.keys())
                if known or self.lib_target(b.targets[0]):
                    best = max([self.score(N, x) for x in plain] or [0])
                    ok = bool(plain & alts) if (plain & alts or known) else best >= 0.3
                    self.c.ob("Y01.name", ok, b.loc, "name " + k, "%s() is bound to %s, not to the function of that name"
                              % (N, self.show(plain)))
                if N[-2:] in ("2d", "3d"):
                    bad = []
                    for t in b.targets:
                        for p in (t[1].params if t and t[1] is not None else ()):
                            m = re.match(r"lanelet::(\w+)([23])d$", bare(t[1].ptype(p)))
                            if m and m.group(2) != N[-2]:
                                bad.append(m.group(1) + m.group(2) + "d")
                    c.ob("Y01.dim", not bad, b.loc, "dim " + k + " " + ",".join(sorted(set(bad))),
                         "%s() is bound to a function on %s" % (N, ", ".join(sorted(set(bad)))))
                continue
            M = self.mem(b.cls)
            if b.name in M:
                g = "get" + b.name[0].upper() + b.name[1:]
                c.ob("Y01.name", b.name in plain or (g in M and g in plain), b.loc, "name " + k, "%s reaches %s and not the member %s of %s" %
                     (k, self.show(plain), b.name, b.cls))
            elif M and plain & set(M):
                best = max([self.score(b.name, x) for x in plain] or [0])
                oth = max(((self.score(b.name, m), m) for m in M), default=(0, ""))
                c.ob("Y01.name", not (oth[0] > best and oth[0] >= 0.5), b.loc, "name " + k,
                     "%s reaches %s; the member of that name is %s" % (k, self.show(plain), oth[1]))

    def show(self, s):
        s = sorted(s)
        return ", ".join(s[:6]) or "nothing"

    def dunder(self, b, T, k):
        c = self.c
        ops = {x[3:] for x in T if x.startswith("op:")}
        ar = {"+", "-", "*", "/"}
        if b.name in DUNDER:
            want = DUNDER[b.name]
            have = ops & ({"==", "!=", "<", ">", "<=", ">="} if b.name[2:4] in ("eq", "ne", "lt", "gt", "le", "ge") else ar | {"+=", "-="})
            if have:
                c.ob("Y01.op", bool(have & want) and not (b.name in ("__add__", "__sub__", "__mul__", "__rmul__", "__div__", "__truediv__")
                                                        and have - want), b.loc, "op " + k,
                     "%s computes %s" % (k, " ".join(sorted(have))))
        elif b.name in SYN and self.lib_target(b.targets[0]) and b.targets[0][0] == "fn":
            c.ob("Y01.op", bool(T & SYN[b.name]), b.loc, "op " + k, "%s reaches %s" % (k, self.show(T)))

    # -------------------------------------------------- properties
    def pairs(self):
        c = self.c
        c.rule("Y01.pair", "the setter of a property writes what its getter reads", 15)
        c.rule("Y01.self", "what is bound to a class takes an object of that class first, a setter a value as well", 60)
        strip = lambda x: norm(re.sub(r"^(get|set)(?=[A-Z])", "", x))
        for b in self.binds:
            k = self.key(b)
            if b.cls and b.kind in ("def", "prop") and not b.ctor:
                for i, t in enumerate(b.targets):
                    if t is not None:
                        self.selftype(b, t, k, b.kind == "prop", i)
            if b.kind not in ("prop", "sprop") or len(b.targets) < 2:
                continue
            g, s = b.targets[:2]
            if g is None or s is None:
                continue
            M = self.mem(b.cls)
            G, S = self.names_of(g), self.names_of(s)
            gm = {strip(x) for x in G if x in M}
            sm = {strip(x) for x in S if x in M}
            if gm and sm:
                c.ob("Y01.pair", bool(gm & sm), b.loc, "pair " + k, "the getter of %s reads %s, its setter writes %s" %
                     (k, self.show(gm), self.show(sm)))
            nm = norm(b.name)
            if any(strip(m) == nm for m in M) and sm:
                c.ob("Y01.pair", nm in sm, b.loc, "setter " + k, "the setter of %s writes %s" % (k, self.show(sm)))

    def arity(self, t):
        g = t[1]
        if g is not None:
            meth = g.kind in ("method",) and not g.flag("static") and t[3] != "lambda" and g.kind != "lambda"
            return len(g.params) + (1 if meth else 0)
        return None

    def selftype(self, b, t, k, prop, i):
        c = self.c
        if t[0] != "fn":
            return
        g = t[1]
        if prop and g is not None:
            n = self.arity(t)
            c.ob("Y01.self", n == i + 1, b.loc, "arity %s %d" % (k, i), "the %s of %s takes %d arguments (with the object)" %
                 ("setter" if i else "getter", k, n))
        if g is None or (g.kind == "method" and t[3] != "lambda") or not g.params:
            return
        pt = g.ptype(g.params[0])
        ok = {bare(b.cls)} | self.sup(b.cls)
        x = bare(pt)
        if x in ok or re.search(r"boost::python::(api::)?object|PyObject|_object|boost::python::back_reference", pt) or \
                (re.match(r"(std|boost)::shared_ptr<(const )?(.*)>$", x) and bare(targ(x)) in ok):
            c.ob("Y01.self", True, b.loc, "self " + k, "")
            return
        const = not pt.rstrip().endswith("&") or re.match(r"const\b", pt)
        if const and ((bare(b.cls), x) in self.implicit or prop is False and b.name in ("__rmul__",)):
            c.ob("Y01.self", True, b.loc, "self " + k, "")
            return
        c.ob("Y01.self", False, b.loc, "self %s %d" % (k, i), "%s of %s is bound to a function on %s" % (b.name, b.cls, pt))

    def sup(self, q):
        return {bare(r.get("type", "")) for r in self.recs(q)} | {bare(b.get("t", "")) for r in self.recs(q) for b in r.get("bases", ())}

    # -------------------------------------------------- keywords
    def eff(self, t, selfed):
        """parameters behind a target after the object: [(names, type, default)]"""
        g = t[1] if t else None
        if g is None:
            return None
        ps = list(g.params)
        if selfed and (g.kind != "method" or t[3] == "lambda" or g.flag("static")):
            ps = ps[1:]
        out = []
        for p in ps:
            names, dv = {p["n"]} - {""}, p.get("dv")
            if g.id in self.pyids:
                for nm, d in self.forwards(g, p["id"]):
                    names.add(nm)
                    dv = d if dv is None else dv
            out.append((names, g.ptype(p), dv))
        return out

    def forwards(self, g, pid):
        """(name, default) of the library parameters and fields a parameter of a wrapper is handed on to"""
        for n in g.nodes.values():
            if n["k"] in CALLS:
                h = (self.P.targets(n) or [None])[0]
                if h is None:
                    continue
                for p, a in zip(h.params, call_args(g, n)):
                    if self.isparm(g, a, pid) and p["n"]:
                        yield p["n"], p.get("dv")
                        if h.id in self.pyids and h.id != g.id:
                            yield from self.forwards(h, p["id"])
            elif n["k"] == "InitListExpr" and n.get("flds"):
                for q, a in zip(n["flds"], n.get("c", ())):
                    if self.isparm(g, a, pid):
                        yield last(q), None
            elif n["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=":
                cs = [g.node(x) for x in n.get("c", ()) if x is not None][-2:]
                if len(cs) == 2 and cs[0]["k"] == "MemberExpr" and self.isparm(g, cs[1], pid):
                    yield last(cs[0]["m"]), None

    def isparm(self, g, a, pid):
        a = g.node(a)
        for _ in range(12):
            if a is None:
                return False
            a = unwrap(g, a)
            if a["k"] == "DeclRefExpr":
                return a["d"].get("id") == pid
            if a["k"] in CALLS and last(a.get("f", "")) in ("move", "forward", "ref", "toHybrid", "hullFromList", "objectToOptional",
                                                          "toVector", "basicPoint"):
                x = call_args(g, a)
                a = x[0] if x else call_obj(g, a)
                continue
            return False
        return False

    def ctors(self, b):
        """the constructors an init<> spells"""
        m = re.search(r"boost::python::init<(.*)>", b.doc)
        types, d, cur = [], 0, ""
        for ch in (m.group(1) if m else ""):
            if ch in "<([":
                d += 1
            if ch in ">)]":
                d -= 1
            if ch == "," and d == 0:
                types.append(cur)
                cur = ""
            else:
                cur += ch
        if cur.strip():
            types.append(cur)
        req = [bare(x) for x in types if "boost::python::optional" not in x]
        n = len(req)
        if any("boost::python::optional" in x for x in types):
            n = None
        cands = []
        for f in self.P.funcs.values():
            if f.kind == "ctor" and bare(f.cls or "") in self.ctcls(b.cls) and len(f.params) >= len(req):
                if all(bare(f.ptype(p)) == t for p, t in zip(f.params, req)):
                    cands.append(f)
        return n, cands

    def ctcls(self, q):
        return {bare(q), re.sub(r"<.*", "", bare(q))} | {re.sub(r"<.*", "", x) for x in self.sup(q)}

    def keywords(self):
        c = self.c
        c.rule("Y01.kw", "keywords are distinct and no more than the arguments they name", 60)
        c.rule("Y01.kwpos", "a keyword stands at the position of the parameter it names", 60)
        for b in self.binds:
            if not b.kw:
                continue
            k = self.key(b)
            ns = [norm(x[0]) for x in b.kw]
            dup = sorted({x for x in ns if ns.count(x) > 1})
            c.ob("Y01.kw", not dup, b.loc, "dup %s %s" % (k, ",".join(x[0] for x in b.kw)), "%s lists the keyword %s twice" % (k, ", ".join(dup)))
            selfed = bool(b.cls) and not b.ctor
            effs = []
            if b.kind == "init":
                n, cs = self.ctors(b)
                if n is not None:
                    c.ob("Y01.kw", len(ns) <= n, b.loc, "count %s %s" % (k, ",".join(ns)), "%s lists %d keywords for %d arguments" % (k, len(ns), n))
                for f in cs:
                    e = [({p["n"]} - {""}, f.ptype(p), p.get("dv")) for p in f.params]
                    effs.append(e[:n] if n is not None else e[:len(ns)])
                if len({tuple(sorted(x[0])[:1]) for e in effs for x in e[:1]}) > 1:
                    effs = effs[:0]
            else:
                for t in b.targets[:1]:
                    e = self.eff(t, selfed)
                    if e is not None:
                        effs.append(e)
                        n = len(e) + (1 if selfed else 0)
                        full = len(e) + (1 if selfed and "self" in ns[:1] else 0)
                        c.ob("Y01.kw", len(ns) <= full, b.loc, "count %s %s" % (k, ",".join(ns)),
                             "%s lists %d keywords for %d arguments" % (k, len(ns), full))
            for e in effs:
                off = len(e) - len(ns)
                if off < 0:
                    continue
                own = [{norm(x) for x in e[i + off][0]} for i in range(len(ns))]
                lead = [{norm(x) for x in e[i][0]} for i in range(off)]
                for i, x in enumerate(ns):
                    if x in own[i]:
                        c.ob("Y01.kwpos", True, b.loc, "kw %s %s" % (k, b.kw[i][0]), "")
                        continue
                    other = [j for j in range(len(ns)) if j != i and x in own[j]] + [j for j in range(off) if x in lead[j]]
                    ux = {UNIT[y] for y in tokens2(b.kw[i][0]) if y in UNIT}
                    uo = {UNIT[y] for z in e[i + off][0] for y in tokens2(z) if y in UNIT}
                    bad = bool(other) or bool(ux and uo and not ux & uo)
                    c.ob("Y01.kwpos", not bad, b.loc, "kw %s %s" % (k, b.kw[i][0]), "the keyword %s of %s names the argument %s" %
                         (b.kw[i][0], k, "/".join(sorted(e[i + off][0]))))

    def value(self, f, n):
        n = f.node(n)
        for _ in range(6):
            if n is None:
                return None
            v = n.get("ev", n.get("v"))
            if v is not None and n["k"] != "StringLiteral":
                try:
                    return float(v)
                except ValueError:
                    return None
            if n["k"] == "UnaryOperator" and n.get("op") == "-":
                x = self.value(f, n["c"][0])
                return None if x is None else -x
            cs = [x for x in n.get("c", ()) if x is not None]
            if len(cs) != 1 or n["k"] in CALLS:
                return None
            n = f.node(cs[0])
        return None

    def defaults(self):
        c = self.c
        c.rule("Y01.default", "a default given in Python is the default of the C++ parameter", 10)
        for b in self.binds:
            if not b.kw or b.kind == "init":
                continue
            k = self.key(b)
            e = self.eff(b.targets[0], bool(b.cls) and not b.ctor) if b.targets else None
            if e is None or len(e) < len(b.kw):
                continue
            off = len(e) - len(b.kw)
            for i, (nm, d) in enumerate(b.kw):
                dv = e[i + off][2]
                if d is None or dv is None:
                    continue
                v = self.value(b.f, d)
                if v is None:
                    continue
                c.ob("Y01.default", v == float(dv), b.loc, "default %s %s" % (k, nm), "%s defaults to %s in Python and to %s in C++ (%s)" %
                     (nm, v, dv, k))

    # -------------------------------------------------- units
    def units(self):
        c = self.c
        c.rule("Y01.unit", "what is called (or documented as) km/h or m/s is converted to and from that unit", 4)
        for b in self.binds:
            un = {UNIT[y] for y in tokens2(b.name) if y in UNIT} & {"mps", "kmh"}
            if not un and b.kw:
                un = {UNIT[y] for x in b.kw for y in tokens2(x[0]) if y in UNIT} & {"mps", "kmh"}
            if b.kind != "init":
                un |= ({"kmh"} if re.search(r"\bkm/h\b", b.doc) else set()) | ({"mps"} if re.search(r"\bm/s\b", b.doc) else set())
            if len(un) != 1:
                continue
            got = set()
            for t in b.targets:
                if t and t[0] == "fn" and t[1] is not None and t[1].id in self.pyids:
                    got |= self.speeds(t[1])
            if got:
                c.ob("Y01.unit", got == un, b.loc, "unit " + self.key(b), "%s is in %s and converted from or to %s" %
                     (self.key(b), "/".join(un), "/".join(sorted(got))))

    def speeds(self, g, depth=3):
        out = set()
        for n in g.nodes.values():
            if n["k"] not in CALLS:
                continue
            q = n.get("f", "")
            t = None
            if q == "boost::units::quantity::value":
                o = call_obj(g, n)
                t = g.type(o) if o is not None else None
            elif q == "boost::units::unit::unit" or q == "boost::units::operator*":
                t = g.type(n)
            if t and "time_base_dimension" in t and "length_base_dimension" in t and "angle" not in t:
                out.add("kmh" if "heterogeneous_system" in t else "mps")
            h = self.P.funcs.get(n.get("fid"))
            if h is not None and h.id in self.pyids and depth:
                out |= self.speeds(h, depth - 1)
        return out

    # -------------------------------------------------- wrappers
    def wrappers(self):
        c = self.c
        c.rule("Y01.forward", "a wrapper hands its arguments to the parameters they are named after, in their order", 40)
        for g in self.py:
            pn = {norm(p["n"]): p for p in g.params if p["n"]}
            if len(pn) != len(g.params):
                continue
            for n in g.nodes.values():
                prs = []
                if n["k"] in CALLS:
                    hs = self.P.targets(n)
                    h = hs[0] if hs else None
                    if h is None or h.id in self.pyids and h.kind == "lambda":
                        continue
                    prs = [(p["n"], a) for p, a in zip(h.params, call_args(g, n))]
                    what = last(h.name)
                elif n["k"] == "InitListExpr" and n.get("flds"):
                    prs = [(last(q), a) for q, a in zip(n["flds"], n.get("c", ()))]
                    what = "initialiser"
                if len(prs) < 1:
                    continue
                here = []
                for nm, a in prs:
                    for p in g.params:
                        if self.isparm(g, a, p["id"]):
                            here.append((nm, p))
                if not here:
                    continue
                names = {norm(x[0]) for x in prs}
                bad = None
                for nm, p in here:
                    a, q = norm(p["n"]), norm(nm)
                    if a != q and q in pn and a in names:
                        bad = (p["n"], nm)
                if bad is None:
                    idx = {p["id"]: i for i, p in enumerate(g.params)}
                    for x in range(len(here)):
                        for y in range(x + 1, len(here)):
                            (na, pa), (nb, pb) = here[x], here[y]
                            if idx[pa["id"]] > idx[pb["id"]] and bare(g.ptype(pa)) == bare(g.ptype(pb)) and \
                                    not (norm(pa["n"]) == norm(na) or norm(pb["n"]) == norm(nb)):
                                bad = (pa["n"], na)
                c.ob("Y01.forward", bad is None, g.loc(n), "forward %s -> %s" % (g.short if g.kind != "lambda" else "lambda", what),
                     "the wrapper hands its argument %s to the parameter %s of %s" % (*(bad or ("", "")), what))

    # -------------------------------------------------- enums
    def enums(self):
        c = self.c
        c.rule("Y01.enum", "every value of an exposed enumeration is available under its name", 8)
        by = {}
        for b in self.binds:
            if b.kind == "enum" and b.cls:
                by.setdefault(bare(b.cls), []).append(b)
        for e, bs in sorted(by.items()):
            en = self.P.enums.get(e)
            if en is None:
                continue
            vals = [v if isinstance(v, str) else v.get("n") if isinstance(v, dict) else v[0] for v in en["vals"]]
            got = {last(t[3]) for b in bs for t in b.targets if t}
            for b in bs:
                for t in b.targets:
                    v = last(t[3])
                    ok = norm(b.name) == norm(v) or v in RESERVED
                    c.ob("Y01.enum", ok, b.loc, "value %s.%s" % (last(e), b.name), "%s.%s is the value %s" % (last(e), b.name, v))
            for v in vals:
                v = last(v)
                if v in RESERVED:
                    continue
                c.ob("Y01.enum", v in got, bs[0].loc, "missing %s.%s" % (last(e), v), "%s::%s has no Python name" % (e, v))

    # -------------------------------------------------- overriding from Python
    def overrides(self):
        c = self.c
        c.rule("Y01.override", "a virtual function calls the Python override of its own name with its arguments in order, and else "
               "the C++ function of its own name", 6)
        for g in self.py:
            ov = [n for n in g.nodes.values() if n["k"] in CALLS and last(n.get("f", "")) == "get_override"]
            base = re.sub(r"^default", "", g.short)
            base = base[:1].lower() + base[1:]
            for n in ov:
                ss = [x for x in wk(g, n) if x["k"] == "StringLiteral"]
                if len(ss) == 1:
                    c.ob("Y01.override", ss[0]["v"] == g.short, g.loc(n), "override %s" % g.short, "%s calls the override of %s" % (g.short, ss[0]["v"]))
            if not ov and not (g.short.startswith("default") and g.kind == "method"):
                continue
            for n in g.nodes.values():
                if n["k"] not in CALLS:
                    continue
                q = n.get("f", "")
                if n["k"] == "CXXMemberCallExpr" and q.startswith("lanelet::") and n.get("fvirt"):
                    c.ob("Y01.override", last(q) == base, g.loc(n), "fallback %s" % g.short, "%s falls back to %s" % (g.short, last(q)))
                if q.endswith("override::operator()") or (n["k"] == "CXXMemberCallExpr" and q.startswith("lanelet::") and n.get("fvirt")):
                    args = call_args(g, n)
                    if n["k"] == "CXXOperatorCallExpr" and len(args) == len(g.params) + 1:
                        args = args[1:]
                    if len(args) == len(g.params):
                        ok = all(self.isparm(g, a, p["id"]) for a, p in zip(args, g.params))
                        c.ob("Y01.override", ok, g.loc(n), "args %s" % g.short, "%s hands its arguments on in another order" % g.short)
        for b in self.binds:
            if b.kind == "def" and len(b.targets) == 2 and all(b.targets) and b.cls:
                T = self.names_of(b.targets[1])
                c.ob("Y01.override", b.name in T, b.loc, "default %s" % self.key(b), "the default of %s is %s" % (self.key(b), self.show(T)))


def tokens2(s):
    t = tokens(s)
    return t + ["".join(t[i:i + 2]) for i in range(len(t) - 1)]
