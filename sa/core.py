"""Resolved program model and generic static analyses (call graph, guard facts, typestate helpers)."""
import sys, re
from collections import defaultdict
from . import facts
from .facts import AnalysisBroken, REPO

sys.setrecursionlimit(20000)

CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "UserDefinedLiteral")
ACCESSORS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "front", "back", "operator*", "operator->", "operator[]",
             "at", "get", "find", "data", "value", "lower_bound", "upper_bound", "equal_range", "operator()", "operator bool",
             "get_ptr", "lock", "expired", "size", "empty", "count", "first", "second", "base", "operator!", "child", "children",
             "attribute", "next_sibling", "root", "document_element", "reserve", "str"}


def kids(n):
    """direct sub-nodes of a node"""
    out = []
    if isinstance(n.get("range"), dict):
        out.append(n["range"])
    for x in n.get("c", ()) or ():
        if x is not None:
            out.append(x)
    for v in n.get("vars", ()) or ():
        if isinstance(v, dict) and v.get("init") is not None:
            out.append(v["init"])
    if isinstance(n.get("case"), dict):
        out.append(n["case"])
    return out


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st.extend(reversed(kids(x)))


def short(q):
    """last component of a qualified name"""
    if q is None:
        return None
    if "operator" in q:
        i = q.rfind("::operator")
        if i >= 0:
            return q[i + 2:]
        return q
    return q.rsplit("::", 1)[-1]


def fields_no(f):
    return [x for x in f]


class Func:
    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.types = tu["types"]
        self.id = d["id"]
        self.name = d["name"]
        self.kind = d["kind"]
        self.cls = d.get("cls")
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.params = d["params"]
        self._nodes = None
        self._parent = None
        self._cfg = None
        self._mods = None
        self._states = None

    def __repr__(self):
        return f"<{self.name} {self.loc()}>"

    @property
    def short(self):
        return short(self.name)

    def loc(self, n=None):
        f = self.file
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return f"{f}:{(n or {}).get('l', self.line) if n is not None else self.line}"

    def flag(self, k):
        return bool(self.d.get(k))

    def type(self, n):
        t = n.get("t", -1)
        return self.types[t] if isinstance(t, int) and t >= 0 else ""

    def ptype(self, p):
        return self.types[p["t"]]

    def ret(self):
        return self.types[self.d["ret"]] if self.d["ret"] >= 0 else ""

    # ---- tree
    def _index(self):
        self._nodes = {}
        self._parent = {}
        self.roots = []
        for i in self.d.get("inits", ()):
            if i.get("e"):
                self.roots.append(i["e"])
        if self.d.get("body"):
            self.roots.append(self.d["body"])
        for r in self.roots:
            st = [(r, None)]
            while st:
                n, p = st.pop()
                if not n.get("again"):
                    if n["i"] not in self._nodes:
                        self._nodes[n["i"]] = n
                        self._parent[n["i"]] = p
                for k in reversed(kids(n)):
                    st.append((k, n))

    @property
    def nodes(self):
        if self._nodes is None:
            self._index()
        return self._nodes

    def parent(self, n):
        self.nodes
        return self._parent.get(n["i"])

    def all(self, *kinds):
        if kinds and isinstance(kinds[0], tuple):
            kinds = kinds[0]
        for n in self.nodes.values():
            if not kinds or n["k"] in kinds:
                yield n

    def calls(self):
        for n in self.nodes.values():
            if n["k"] in CALLS and (n.get("f") or n["k"] == "CallExpr"):
                yield n

    def node(self, n):
        """resolve 'again' references"""
        if n is not None and n.get("again"):
            return self.nodes.get(n["i"], n)
        return n

    # ---- cfg
    @property
    def cfg(self):
        if self._cfg is None:
            c = self.d.get("cfg")
            if c is None:
                self._cfg = False
            else:
                blocks = {b["id"]: b for b in c["b"]}
                preds = defaultdict(list)
                for b in blocks.values():
                    for k, s in enumerate(b["s"]):
                        if s is not None:
                            preds[s].append((b["id"], k))
                self._cfg = dict(entry=c["entry"], exit=c["exit"], blocks=blocks, preds=preds)
        return self._cfg or None

    # ---- variables
    def _collect(self):
        """definitions and modifications of locals (flow insensitive)"""
        self.vardefs = {}
        self.vartypes = {}
        self.varnode = {}
        mods = defaultdict(list)
        for p in self.params:
            self.vartypes[p["id"]] = self.types[p["t"]]
        for n in self.nodes.values():
            if n["k"] == "DeclStmt":
                for v in n.get("vars", ()):
                    self.vardefs[v["id"]] = v.get("init")
                    self.vartypes[v["id"]] = self.types[v["t"]]
                    self.varnode[v["id"]] = n
                    for b in v.get("bind", ()) or ():
                        self.vardefs.setdefault(b, None)
                        self.varnode[b] = n
            for t in modified_targets(self, n):
                r = root_var(self, t)
                if r is not None:
                    mods[r].append(n)
        self._mods = mods

    @property
    def mods(self):
        if self._mods is None:
            self._collect()
        return self._mods

    def __getattr__(self, k):
        if k in ("vardefs", "vartypes", "varnode"):
            self._collect()
            return self.__dict__[k]
        raise AttributeError(k)

    def vardef(self, vid):
        self.mods
        return self.vardefs.get(vid)


def deref_ops(n):
    return n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("*", "->")


def root_var(f, n):
    """id of the local variable an lvalue expression denotes directly (x, x.f, x[i]; not through pointers)"""
    n = f.node(n)
    while n is not None:
        k = n["k"]
        if k == "DeclRefExpr":
            d = n.get("d", {})
            return d.get("id") if d.get("k") in ("Var", "Parm") else None
        if k == "MemberExpr" and not n.get("arrow") and n.get("c"):
            n = f.node(n["c"][0])
            continue
        if k == "CXXOperatorCallExpr" and n.get("op") == "[]":
            n = f.node(n["c"][1])
            continue
        if k == "ArraySubscriptExpr":
            n = f.node(n["c"][0])
            continue
        if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            n = f.node(n["c"][0])
            continue
        return None
    return None


def call_obj(f, n):
    """object expression of a member (or member-operator) call, else None"""
    if n["k"] == "CXXMemberCallExpr":
        c = f.node(n["c"][0])
        if c["k"] == "MemberExpr":
            return f.node(c["c"][0]) if c.get("c") else None
        return None
    if n["k"] == "CXXOperatorCallExpr":
        if len(n["c"]) > 1:
            pm = n.get("pm", "")
            nargs = len(n["c"]) - 1
            if len(pm) == nargs - 1:
                return f.node(n["c"][1])
    return None


def call_args(f, n):
    k = n["k"]
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return [f.node(x) for x in n.get("c", ())]
    if k == "CXXOperatorCallExpr":
        a = [f.node(x) for x in n["c"][1:]]
        if call_obj(f, n) is not None:
            return a[1:]
        return a
    if k == "UserDefinedLiteral":
        return [f.node(x) for x in n.get("c", ())[1:]]
    return [f.node(x) for x in n["c"][1:]]


def unwrap(f, n):
    """strip casts, copies, moves, default-arg wrappers, single-element init lists"""
    while n is not None:
        n = f.node(n)
        k = n["k"]
        if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXDefaultArgExpr",
                 "CXXDefaultInitExpr") and n.get("c"):
            n = n["c"][0]
            continue
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (n.get("copy") or n.get("move")) and n.get("c"):
            n = n["c"][0]
            continue
        if k == "InitListExpr" and len(n.get("c") or ()) == 1 and n["c"][0] is not None and not n.get("flds"):
            a, b = f.type(n).replace("const ", "").rstrip("& "), f.type(f.node(n["c"][0])).replace("const ", "").rstrip("& ")
            if a == b:
                n = n["c"][0]
                continue
            return n
        if k == "CallExpr" and n.get("f") in ("std::move", "std::forward", "std::as_const", "boost::move"):
            n = n["c"][1]
            continue
        return n
    return n


def modified_targets(f, n):
    k = n["k"]
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        op = n.get("op")
        if op == "=" or (k == "CompoundAssignOperator"):
            yield f.node(n["c"][0])
    elif k == "UnaryOperator":
        if n.get("op") in ("++", "--", "&"):
            yield f.node(n["c"][0])
    elif k in CALLS:
        o = call_obj(f, n)
        if o is not None and not n.get("fconst") and not n.get("fstatic"):
            s = short(n.get("f"))
            if s is None or s not in ACCESSORS:
                yield o
        pm = n.get("pm", "")
        for a, m in zip(call_args(f, n), pm):
            if m == "n":
                t = f.type(a)
                yield a


class Program:
    def __init__(self, groups):
        self.groups = groups
        self.tus = facts.load(groups)
        self.funcs = {}
        self.byname = defaultdict(list)
        self.records = {}
        self.recbyname = defaultdict(list)
        self.enums = {}
        self.vars = {}
        self.fdecls = {}
        self.includes = []
        self.src = {}
        for src, tu in self.tus:
            for d in tu["funcs"]:
                # entities with internal linkage: make ids unique per TU for anonymous namespaces
                fid = d["id"]
                if fid in self.funcs:
                    continue
                fu = Func(d, tu)
                fu.src = src
                self.funcs[fid] = fu
                self.byname[fu.name].append(fu)
            for r in tu["records"]:
                key = r["type"] if not r.get("dep") else r["id"]
                if r.get("anon"):
                    key += "@" + r.get("file", "")
                if key not in self.records:
                    r["_types"] = tu["types"]
                    self.records[key] = r
                    self.recbyname[r["name"]].append(r)
            for e in tu["enums"]:
                self.enums.setdefault(e["name"], e)
            for v in tu["vars"]:
                k = v["name"] if not v.get("anon") else v["name"] + "@" + v.get("file", "")
                v["_types"] = tu["types"]
                if k not in self.vars or (v.get("isdef") and "init" in v and "init" not in self.vars[k]):
                    self.vars[k] = v
            for d in tu["fdecls"]:
                self.fdecls.setdefault(d["id"], (d, tu))
            self.includes += tu["includes"]
        self.varname = defaultdict(list)
        for v in self.vars.values():
            self.varname[v["name"]].append(v)
        self._callers = None
        self._over = None
        self._summ = {}
        self._virt = None

    # ---- selection
    def fn(self, name, pred=None, dep=False, required=True):
        r = [f for f in self.byname.get(name, ()) if (dep or not f.flag("dep"))]
        if pred:
            r = [f for f in r if pred(f)]
        if required and not r:
            raise AnalysisBroken(f"anchor function {name} not found")
        return r

    def lib(self):
        return [f for f in self.funcs.values() if f.file.startswith(REPO + "/") and not f.flag("dep")]

    def overriders(self):
        if self._over is None:
            self._over = defaultdict(set)
            sup = {}
            for f in self.funcs.values():
                for o in f.d.get("overrides", ()):
                    self._over[o].add(f.id)
            for fid, (d, tu) in self.fdecls.items():
                for o in d.get("overrides", ()):
                    self._over[o].add(fid)
            # transitive
            ch = True
            while ch:
                ch = False
                for k in list(self._over):
                    add = set()
                    for x in self._over[k]:
                        add |= self._over.get(x, set())
                    if not add <= self._over[k]:
                        self._over[k] |= add
                        ch = True
        return self._over

    def targets(self, n):
        """possible callee Func objects (with bodies) of a call node"""
        fid = n.get("fid")
        if not fid:
            return []
        r = []
        if fid in self.funcs:
            r.append(self.funcs[fid])
        if n.get("fvirt"):
            for o in self.overriders().get(fid, ()):
                if o in self.funcs:
                    r.append(self.funcs[o])
        return r

    def lambdas(self, n):
        return [self.funcs[x] for x in n.get("lam", ()) if x in self.funcs]

    def callers(self):
        """callee id -> list of (caller Func, node)"""
        if self._callers is None:
            c = defaultdict(list)
            for f in self.funcs.values():
                if f.flag("dep"):
                    continue
                for n in f.nodes.values():
                    if n.get("fid"):
                        c[n["fid"]].append((f, n))
                    elif n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") == "Function":
                        c[n["d"]["id"]].append((f, n))
                    for l in n.get("lam", ()):
                        c[l].append((f, n))
            self._callers = c
        return self._callers

    def callsites(self, fid):
        """(caller, call node) of the direct calls of a function, with all arguments"""
        return [(g, n) for g, n in self.callers().get(fid, ()) if n["k"] in CALLS and n.get("fid") == fid and not g.flag("dep")]

    def reach(self, roots, through=None):
        """functions reachable in the call graph (lambdas count as called where they are created)"""
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            f, via = st.pop()
            if f.id in seen:
                continue
            seen[f.id] = via
            for n in f.nodes.values():
                if n.get("fid"):
                    for t in self.targets(n):
                        if through is None or through(f, n, t):
                            st.append((t, (f, n)))
                if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") == "Function":
                    t = self.funcs.get(n["d"]["id"])
                    if t is not None and t.id not in seen:
                        st.append((t, (f, n)))
                for l in self.lambdas(n):
                    st.append((l, (f, n)))
        return seen

    # ------------------------------------------------------------- expression keys
    def key(self, f, n, sub=None, depth=0):
        """canonical text of an expression; locals with one definition are replaced by their definition"""
        n = unwrap(f, n)
        if n is None:
            return "?"
        if depth > 25:
            return "…"
        k = n["k"]
        K = lambda x: self.key(f, x, sub, depth + 1)
        if k == "DeclRefExpr":
            d = n.get("d", {})
            if d.get("k") in ("Var", "Parm"):
                vid = d["id"]
                if sub and vid in sub:
                    return sub[vid]
                return self.varkey(f, vid, sub, depth)
            if d.get("k") == "Enum":
                return "e:" + d["n"]
            return "g:" + d.get("n", "")
        if k == "MemberExpr":
            c = n.get("c") or []
            b = f.node(c[0]) if c else None
            nm = short(n["m"])
            if b is None:
                return n["m"]
            bk = K(b)
            if b["k"] == "CXXThisExpr":
                return "this." + nm
            if n.get("arrow") and not (b["k"] == "CXXOperatorCallExpr" and b.get("op") == "->"):
                bk = "*" + bk
            return bk + "." + nm
        if k == "CXXThisExpr":
            return (sub or {}).get("this", "this")
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = [K(x) for x in n.get("c", ())]
            if len(a) == 1 and ("optional" in (n.get("f") or "")):
                return a[0]
            if len(a) == 1 and n["k"] == "CXXConstructExpr" and short(n.get("f")) in ("__normal_iterator", "shared_ptr", "iterator", "_List_const_iterator", "_Rb_tree_const_iterator", "_Node_const_iterator"):
                return a[0]
            return short(n.get("f") or "") + "(" + ",".join(a) + ")"
        if k == "CXXOperatorCallExpr":
            op = n.get("op")
            a = [K(x) for x in n["c"][1:]]
            if op in ("*", "->") and len(a) == 1:
                return "*" + a[0]
            if op == "[]":
                return a[0] + "[" + ",".join(a[1:]) + "]"
            if op == "()":
                return a[0] + "(" + ",".join(a[1:]) + ")"
            if len(a) == 1:
                return op + a[0]
            return "(" + op.join(a) + ")"
        if k == "CXXMemberCallExpr":
            o = call_obj(f, n)
            nm = short(n.get("f") or "?")
            args = [K(x) for x in call_args(f, n)]
            if o is None:
                return nm + "(" + ",".join(args) + ")"
            me = f.node(n["c"][0])
            ok = K(o)
            if me.get("arrow") and o["k"] != "CXXThisExpr" and not (o["k"] == "CXXOperatorCallExpr" and o.get("op") == "->"):
                ok = "*" + ok
            if nm.startswith("operator ") and not args:
                return ok
            return f"{ok}.{nm}({','.join(args)})"
        if k == "CallExpr":
            args = [K(x) for x in n["c"][1:]]
            nm = n.get("f")
            if nm is None:
                return K(n["c"][0]) + "(" + ",".join(args) + ")"
            return short(nm) + "(" + ",".join(args) + ")"
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return "(" + K(n["c"][0]) + n["op"] + K(n["c"][1]) + ")"
        if k == "UnaryOperator":
            if n["op"] == "*":
                x = K(n["c"][0])
                return "*" + x
            return n["op"] + K(n["c"][0])
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "FloatingLiteral", "CharacterLiteral"):
            return "#" + str(n.get("v"))
        if k == "StringLiteral":
            return "'" + str(n.get("v")) + "'"
        if k == "CXXNullPtrLiteralExpr":
            return "#null"
        if k == "ConditionalOperator":
            return "(" + K(n["c"][0]) + "?" + K(n["c"][1]) + ":" + K(n["c"][2]) + ")"
        if k == "ArraySubscriptExpr":
            return K(n["c"][0]) + "[" + K(n["c"][1]) + "]"
        if k == "LambdaExpr":
            return "lambda@%d" % n["l"]
        if k == "InitListExpr":
            return "{" + ",".join(K(x) for x in n.get("c", ())) + "}"
        return k + "(" + ",".join(K(x) for x in kids(n)) + ")"

    def varkey(self, f, vid, sub=None, depth=0):
        g = f
        f.mods
        if vid not in f.vartypes and vid not in f.vardefs and f.kind == "lambda":
            p = self.funcs.get(f.d.get("parent"))
            while p is not None:
                p.mods
                if vid in p.vartypes or vid in p.vardefs:
                    g = p
                    break
                p = self.funcs.get(p.d.get("parent")) if p.kind == "lambda" else None
            if f.mods.get(vid):
                return "v:" + vid
        init = g.vardefs.get(vid)
        if init is not None and not g.mods.get(vid) and not self.mod_in_lambdas(g, vid):
            i = unwrap(g, init)
            if i["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "MemberExpr", "DeclRefExpr", "UnaryOperator",
                          "ArraySubscriptExpr", "CXXThisExpr", "CXXConstructExpr") and not is_default_construct(i):
                if i["k"] == "CXXConstructExpr" and len(i.get("c", ())) != 1:
                    return "v:" + vid
                return self.key(g, init, sub, depth + 1)
        return "v:" + vid

    def mod_in_lambdas(self, f, vid):
        c = getattr(f, "_lmods", None)
        if c is None:
            c = set()
            for n in f.all("LambdaExpr"):
                for l in self.lambdas(n):
                    c |= set(k for k, v in l.mods.items() if v)
                    c |= self._all_lmods(l)
            f._lmods = c
        return vid in c

    def _all_lmods(self, l):
        r = set()
        for n in l.all("LambdaExpr"):
            for x in self.lambdas(n):
                r |= set(x.mods)
                r |= self._all_lmods(x)
        return r

    def slice(self, f, n, stop=None, seen=None):
        """backward data slice: all nodes whose value may flow into n (flow insensitive, through locals, loops and
        initialisers); arguments of calls for which stop(node) holds are not followed"""
        seen = {} if seen is None else seen
        st = [(f, f.node(n))]
        vseen = set()
        while st:
            g, x = st.pop()
            if x is None:
                continue
            x = g.node(x)
            if (g.id, x["i"]) in seen:
                continue
            seen[(g.id, x["i"])] = (g, x)
            if x["k"] == "LambdaExpr":
                continue
            if stop is not None and x["k"] in CALLS and stop(g, x):
                continue
            if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") in ("Var", "Parm"):
                vid = x["d"]["id"]
                h = self._owner(g, vid)
                if h is None or (h.id, vid) in vseen:
                    continue
                vseen.add((h.id, vid))
                if h.vardefs.get(vid) is not None:
                    st.append((h, h.vardefs[vid]))
                dn = h.varnode.get(vid)
                if dn is not None and h.vardefs.get(vid) is None and dn["k"] == "DeclStmt":
                    for v in dn.get("vars", ()):
                        if vid in (v.get("bind") or ()) and v.get("init") is not None:
                            st.append((h, v["init"]))
                hs = [h] + ([] if h is g else [g])
                for q in hs:
                    for m in q.mods.get(vid, ()):
                        st.append((q, m))
                continue
            for y in kids(x):
                st.append((g, y))
        return list(seen.values())

    # ------------------------------------------------------------- condition facts
    def assume(self, f, n, pol, sub=None, depth=0):
        """facts implied by condition n having truth value pol. A fact is (kind, key, polarity)."""
        n = unwrap(f, n)
        out = set()
        if n is None or depth > 12:
            return out
        A = lambda x, p: self.assume(f, x, p, sub, depth + 1)
        K = lambda x: self.key(f, x, sub)
        k = n["k"]
        if k == "UnaryOperator" and n["op"] == "!":
            return A(n["c"][0], not pol)
        if k == "CXXOperatorCallExpr" and n.get("op") == "!":
            return A(n["c"][1], not pol)
        if k == "BinaryOperator" and n["op"] == "&&":
            if pol:
                return A(n["c"][0], True) | A(n["c"][1], True)
            a, b = A(n["c"][0], False), A(n["c"][1], False)
            return a & b
        if k == "BinaryOperator" and n["op"] == "||":
            if not pol:
                return A(n["c"][0], False) | A(n["c"][1], False)
            a, b = A(n["c"][0], True), A(n["c"][1], True)
            return a & b
        if k == "ConditionalOperator":
            c, x, y = n["c"]
            x_, y_ = unwrap(f, x), unwrap(f, y)
            fx = None if is_bool(x_, not pol) else (A(c, True) | A(x, pol))
            fy = None if is_bool(y_, not pol) else (A(c, False) | A(y, pol))
            if fx is None:
                return fy or set()
            if fy is None:
                return fx
            return fx & fy
        op = None
        if k == "BinaryOperator" or (k == "CXXOperatorCallExpr" and len(n["c"]) == 3):
            op = n.get("op")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = (n["c"][0], n["c"][1]) if k == "BinaryOperator" else (n["c"][1], n["c"][2])
            a, b = unwrap(f, a), unwrap(f, b)
            if op in ("==", "!="):
                p = pol if op == "==" else not pol
                for x, y in ((a, b), (b, a)):
                    if is_bool(y, True):
                        return A(x, p)
                    if is_bool(y, False):
                        return A(x, not p)
                    if y["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
                        out |= A(x, not p)
                        return out
                    yk = K(y)
                    if yk.endswith(".end()") or yk.endswith(".cend()") or yk.endswith(".rend()") or re.match(r"(c|r|cr)?end\(", yk):
                        out.add(("isend", K(x), p))
                    if "none" in yk and yk.startswith("g:") and "none_t" in f.type(y) + yk or yk in ("g:boost::none",):
                        out.add(("true", K(x), not p))
                ka, kb = sorted((K(a), K(b)))
                out.add(("eq", ka + "==" + kb, p))
                self._sizefacts(f, a, b, "==" if p else "!=", out, sub)
            else:
                o = op
                if not pol:
                    o = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
                out.add(("cmp", K(a) + o + K(b), True))
                out.add(("cmp", K(b) + {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[o] + K(a), True))
                self._sizefacts(f, a, b, o, out, sub)
            return out
        if k in CALLS:
            s = short(n.get("f") or "")
            o = call_obj(f, n)
            if o is not None and (s in ("operator bool", "is_initialized", "has_value", "operator unspecified_bool_type") or s.startswith("operator ") and "bool" in s):
                return A(o, pol) | {("true", K(o), pol)}
            if o is not None and s == "empty":
                out.add(("empty", K(o), pol))
                return out
            if o is not None and s == "expired":
                out.add(("expired", K(o), pol))
                if not pol:
                    out.add(("true", K(o) + ".lock()", True))
                return out
            if o is not None and s in ("count", "contains"):
                a = call_args(f, n)
                out.add(("has", K(o) + "|" + ",".join(K(x) for x in a), pol))
                return out
        if k == "DeclRefExpr" and n.get("d", {}).get("k") == "Var":
            vid = n["d"]["id"]
            g = self._owner(f, vid)
            if g is not None and not g.mods.get(vid) and not self.mod_in_lambdas(g, vid):
                init = g.vardefs.get(vid)
                if init is not None:
                    i = unwrap(g, init)
                    out |= self.assume(g, init, pol, sub, depth + 1)
            elif g is f and not self.mod_in_lambdas(g, vid) and depth < 3:
                out |= self._value_facts(f, vid, pol, sub, depth, n)
            out.add(("true", K(n), pol))
            return out
        out.add(("true", K(n), pol))
        # helper functions with bodies
        if k in CALLS and n.get("fid") in self.funcs and not n.get("fvirt") and depth < 4:
            g = self.funcs[n["fid"]]
            if g.cfg and g.ret() == "bool":
                s = self.bool_summary(g, pol)
                if s:
                    mp = self.bind(f, n, g, sub)
                    for (kk, key, p) in s:
                        nk = subst(key, mp)
                        if nk is not None:
                            out.add((kk, nk, p))
        return out

    def _value_facts(self, f, vid, pol, sub, depth, use=None):
        """facts implied by a reassigned local bool/optional having truth value pol: what all its definitions that can
        give it that value have in common (facts about reassigned variables are left out)"""
        busy = getattr(f, "_vf_busy", None)
        if busy is None:
            busy = f._vf_busy = set()
        if (vid, pol) in busy:
            return set()
        busy.add((vid, pol))
        try:
            defs = []
            init = f.vardefs.get(vid)
            rd = self.reaching(f, vid, use) if use is not None else None
            live = None if rd is None else {m["i"] for m, _ in rd if m is not None}
            if live is not None and any(m is None for m, _ in rd):
                return set()
            if init is not None and (live is None or f.varnode[vid]["i"] in live):
                defs.append((f.varnode.get(vid), init))
            for n in f.mods.get(vid, ()):
                if live is not None and n["i"] not in live:
                    continue
                if n["k"] in ("BinaryOperator",) and n.get("op") == "=":
                    defs.append((n, n["c"][1]))
                elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
                    defs.append((n, n["c"][2]))
                elif n["k"] == "CompoundAssignOperator" and n["op"] == "&=" and pol:
                    continue
                elif n["k"] == "CompoundAssignOperator" and n["op"] == "|=" and not pol:
                    continue
                elif n["k"] == "CompoundAssignOperator" and n["op"] in ("|=", "&="):
                    defs.append((n, n["c"][1]))
                elif n["k"] in CALLS and short(n.get("f") or "") in ("emplace", "reset"):
                    defs.append((n, None))
                else:
                    return set()
            res = None
            full = f._states is not None and not getattr(f, "_busy", False)
            for n, rhs in defs:
                if rhs is not None:
                    u = unwrap(f, rhs)
                    if is_bool(u, not pol):
                        continue
                    if pol and (is_default_construct(u) or self.key(f, u) in ("g:boost::none", "none()", "optional()", "#null")):
                        continue
                    fs = self.assume(f, rhs, pol, sub, depth + 1)
                else:
                    fs = set()
                if full and n is not None:
                    fs = fs | (self.state_at(f, n) or set())
                keep = set()
                for x in fs:
                    vs = re.findall(r"v:([\w~]*#\d+:\d+)", x[1])
                    if not any(f.mods.get(v) for v in vs):
                        keep.add(x)
                res = keep if res is None else res & keep
            return res or set()
        finally:
            busy.discard((vid, pol))

    def reaching(self, f, vid, n):
        """definitions of a local that can reach node n: list of (node, assigned value or None), None when unknown"""
        cfg = f.cfg
        if not cfg or (vid not in f.vardefs and vid not in f.vartypes):
            return None
        c = f.__dict__.setdefault("_reach", {})
        if vid not in c:
            defs = {}
            for m in f.mods.get(vid, ()):
                if m["k"] == "BinaryOperator" and m.get("op") == "=" and unwrap(f, m["c"][0])["k"] == "DeclRefExpr":
                    defs[m["i"]] = (m, m["c"][1], True)
                elif m["k"] == "CXXOperatorCallExpr" and m.get("op") == "=" and len(m["c"]) == 3 and unwrap(f, m["c"][1])["k"] == "DeclRefExpr":
                    defs[m["i"]] = (m, m["c"][2], True)
                else:
                    defs[m["i"]] = (m, None, False)
            dn = f.varnode.get(vid)
            if dn is not None:
                defs[dn["i"]] = (dn, f.vardefs.get(vid), True)

            def step(b, st, upto=None):
                for i, e in enumerate(cfg["blocks"][b]["e"]):
                    if upto is not None and i >= upto:
                        break
                    if isinstance(e, int) and e in defs:
                        st = frozenset([e]) if defs[e][2] else st | {e}
                return st
            order = rpo(cfg)
            IN = {b: frozenset() for b in order}
            if dn is None:
                IN[cfg["entry"]] = frozenset([-1])
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == cfg["entry"]:
                        continue
                    v = frozenset()
                    for p, _ in cfg["preds"].get(b, ()):
                        if p in IN:
                            v |= step(p, IN[p])
                    if v != IN[b]:
                        IN[b] = v
                        ch = True
            c[vid] = (defs, IN, step)
        defs, IN, step = c[vid]
        w = self.where(f, n)
        if w is None or w[0] not in IN:
            return None
        st = step(w[0], IN[w[0]], w[1])
        return [(defs[e][0], defs[e][1]) if e in defs else (None, None) for e in st]

    def _owner(self, f, vid):
        f.mods
        if vid in f.vardefs or vid in f.vartypes:
            return f
        p = f
        while p is not None and p.kind == "lambda":
            p = self.funcs.get(p.d.get("parent"))
            if p is not None:
                p.mods
                if vid in p.vardefs or vid in p.vartypes:
                    return p
        return None

    def _sizefacts(self, f, a, b, op, out, sub):
        for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            xx = unwrap(f, x)
            if xx["k"] == "CXXMemberCallExpr" and short(xx.get("f")) in ("size", "length"):
                v = const_int(f, y)
                kx = self.key(f, call_obj(f, xx), sub)
                if v is not None:
                    mn = None
                    if o == "==" and v > 0: mn = v
                    if o == ">" and v >= 0: mn = v + 1
                    if o == ">=" and v >= 1: mn = v
                    if o == "!=" and v == 0: mn = 1
                    if mn:
                        out.add(("empty", kx, False))
                        for i in range(1, min(mn, 8) + 1):
                            out.add(("minsize", f"{kx}|{i}", True))
                    if (o == "==" and v == 0) or (o == "<" and v == 1) or (o == "<=" and v == 0):
                        out.add(("empty", kx, True))
            if xx["k"] == "CXXMemberCallExpr" and short(xx.get("f")) in ("count",):
                v = const_int(f, y)
                if v is not None:
                    kx = self.key(f, call_obj(f, xx), sub) + "|" + ",".join(self.key(f, q, sub) for q in call_args(f, xx))
                    if (o in ("!=", ">") and v == 0) or (o == "==" and v == 1) or (o == ">=" and v == 1):
                        out.add(("has", kx, True))
                    if o == "==" and v == 0:
                        out.add(("has", kx, False))

    def bind(self, f, n, g, sub=None):
        """substitution of g's parameters by the argument keys of call n in f"""
        mp = {}
        args = call_args(f, n)
        o = call_obj(f, n)
        if g.kind in ("method", "conv") and not g.flag("static"):
            if o is None:
                mp["this"] = "this"
            else:
                me = f.node(n["c"][0])
                ok = self.key(f, o, sub)
                if n["k"] == "CXXMemberCallExpr" and me.get("arrow") and o["k"] != "CXXThisExpr" and not deref_ops(o):
                    ok = "*" + ok
                mp["this"] = ok
        for p, a in zip(g.params, args):
            mp["v:" + p["id"]] = self.key(f, a, sub)
        return mp

    def bool_summary(self, g, pol):
        """facts (over g's parameters / this) that hold whenever g returns pol"""
        kk = ("bool", g.id, pol)
        if kk in self._summ:
            return self._summ[kk]
        self._summ[kk] = set()
        res = None
        for r, st in self.returns(g):
            e = r["c"][0] if r.get("c") else None
            if e is None:
                continue
            u = unwrap(g, e)
            if is_bool(u, not pol):
                continue
            fs = set(st) | self.assume(g, e, pol)
            res = fs if res is None else res & fs
        res = res or set()
        ok = set()
        pids = {"v:" + p["id"] for p in g.params}
        for x in res:
            vs = set(re.findall(r"v:[\w~]*#\d+:\d+", x[1]))
            if vs <= pids:
                ok.add(x)
        self._summ[kk] = ok
        return ok

    def returns(self, f):
        """(ReturnStmt node, facts holding there) for each reachable return"""
        out = []
        if not f.cfg:
            return out
        for bid, b in f.cfg["blocks"].items():
            for e in b["e"]:
                if isinstance(e, int):
                    n = f.nodes.get(e)
                    if n is not None and n["k"] == "ReturnStmt":
                        st = self.state_at(f, n)
                        if st is not None:
                            out.append((n, st))
        return out

    # ------------------------------------------------------------- disjunctive guards
    def implies(self, f, n, pol, pred, sub=None, depth=0):
        """does 'n has truth value pol' imply that some fact satisfying pred holds (possibly a different one per case)?"""
        n = unwrap(f, n)
        if n is None or depth > 14:
            return False
        I = lambda x, p: self.implies(f, x, p, pred, sub, depth + 1)
        k = n["k"]
        if k == "UnaryOperator" and n["op"] == "!":
            return I(n["c"][0], not pol)
        if k == "CXXOperatorCallExpr" and n.get("op") == "!":
            return I(n["c"][1], not pol)
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            a, b = I(n["c"][0], pol), I(n["c"][1], pol)
            return (a or b) if (n["op"] == "&&") == pol else (a and b)
        if k == "ConditionalOperator":
            c, x, y = n["c"]
            okx = is_bool(unwrap(f, x), not pol) or I(c, True) or I(x, pol)
            oky = is_bool(unwrap(f, y), not pol) or I(c, False) or I(y, pol)
            return okx and oky
        if any(pred(x) for x in self.assume(f, n, pol, sub)):
            return True
        if k == "DeclRefExpr" and n.get("d", {}).get("k") == "Var":
            vid = n["d"]["id"]
            g = self._owner(f, vid)
            if g is not None and not self.mod_in_lambdas(g, vid):
                defs = []
                init = g.vardefs.get(vid)
                rd = self.reaching(g, vid, n) if g is f and g.mods.get(vid) else None
                live = None if rd is None else {m["i"] for m, _ in rd if m is not None}
                if live is not None and any(m is None for m, _ in rd):
                    return False
                if init is not None and (live is None or g.varnode[vid]["i"] in live):
                    defs.append((g.varnode.get(vid), init))
                for m in g.mods.get(vid, ()):
                    if live is not None and m["i"] not in live:
                        continue
                    if m["k"] == "BinaryOperator" and m.get("op") == "=":
                        defs.append((m, m["c"][1]))
                    elif m["k"] == "CXXOperatorCallExpr" and m.get("op") == "=":
                        defs.append((m, m["c"][2]))
                    elif m["k"] == "CompoundAssignOperator" and (m["op"], pol) in (("&=", True), ("|=", False)):
                        if I(m["c"][1], pol):
                            return True
                    elif m["k"] == "CompoundAssignOperator" and m["op"] in ("&=", "|="):
                        defs.append((m, m["c"][1]))
                    else:
                        return False
                if not defs:
                    return False
                bz = g.__dict__.setdefault("_imp_busy", set())
                if (vid, pol) in bz:
                    return True  # coinductive: v = v || x
                bz.add((vid, pol))
                try:
                    for m, rhs in defs:
                        u = unwrap(g, rhs)
                        if is_bool(u, not pol):
                            continue
                        if pol and (is_default_construct(u) or self.key(g, u) in ("g:boost::none", "optional()", "#null")):
                            continue
                        if self.implies(g, rhs, pol, pred, sub, depth + 1):
                            continue
                        if m is not None and g is f and not f.__dict__.get("_bits_busy") and self.holds(g, m, pred, sub):
                            continue
                        return False
                    return True
                finally:
                    bz.discard((vid, pol))
        if k in CALLS and n.get("fid") in self.funcs and not n.get("fvirt") and depth < 6:
            g = self.funcs[n["fid"]]
            if g.cfg:
                mp = self.bind(f, n, g, sub)
                sub2 = {kk[2:] if kk.startswith("v:") else kk: v for kk, v in mp.items()}
                return self.returns_imply(g, pol, pred, sub2)
        return False

    def returns_imply(self, g, pol, pred, sub=None):
        """every return of g that can have truth value pol implies pred"""
        rs = self.returns(g)
        if not rs:
            return False
        stack = self.__dict__.setdefault("_ri", [])
        if g.id in stack:
            return False
        stack.append(g.id)
        try:
            for r, _ in rs:
                e = r["c"][0] if r.get("c") else None
                u = unwrap(g, e)
                if is_bool(u, not pol):
                    continue
                if pol and u is not None and (is_default_construct(u) or self.key(g, u) in ("g:boost::none", "optional()", "#null")):
                    continue
                if e is not None and self.implies(g, e, pol, pred, sub):
                    continue
                if self.holds(g, r, pred, sub):
                    continue
                return False
            return True
        finally:
            stack.pop()

    def bits(self, f, pred, sub=None, gen=None):
        """per block: on every path to it some branch established pred (or passed an element for which gen() holds)"""
        cfg = f.cfg
        order = rpo(cfg)
        IN = {b: True for b in order}
        IN[cfg["entry"]] = False
        was = f.__dict__.get("_bits_busy")
        f._bits_busy = True
        ecache = {}
        try:
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b != cfg["entry"]:
                        v = True
                        for (p, si) in cfg["preds"].get(b, ()):
                            if p not in IN:
                                continue
                            if (p, si) not in ecache:
                                blk = cfg["blocks"][p]
                                e = False
                                if gen is not None and any(isinstance(x, int) and x in f.nodes and gen(f.nodes[x]) for x in blk["e"]):
                                    e = True
                                if blk.get("noret"):
                                    e = True
                                if not e and len(blk["s"]) == 2 and "cond" in blk and blk.get("t") not in ("SwitchStmt", "CXXTryStmt"):
                                    cn = f.nodes.get(blk["cond"])
                                    if cn is not None and pred is not None:
                                        e = self.implies(f, self._cond(f, blk, cn), si == 0, pred, sub)
                                ecache[(p, si)] = e
                            v = v and (IN[p] or ecache[(p, si)])
                        if v != IN[b]:
                            IN[b] = v
                            ch = True
        finally:
            f._bits_busy = was
        return IN

    def holds(self, f, n, pred, sub=None):
        """on every path to node n some fact satisfying pred was established"""
        if not f.cfg:
            return False
        if sub is None:
            st = self.state_at(f, n)
            if st is None:
                return True
            if any(pred(x) for x in st):
                return True
        w = self.where(f, n)
        if w is None:
            return False
        return self.bits(f, pred, sub).get(w[0], True)

    # ------------------------------------------------------------- guard dataflow
    def states(self, f):
        """must-facts at the entry of every block"""
        if f._states is not None:
            return f._states
        cfg = f.cfg
        if not cfg:
            f._states = {}
            return f._states
        f._states = {}
        f._busy = True
        IN = {cfg["entry"]: frozenset()}
        order = rpo(cfg)
        work = list(order)
        inw = set(work)
        it = 0
        pos = {b: i for i, b in enumerate(order)}
        import heapq
        hq = [pos[b] for b in work]
        heapq.heapify(hq)
        edge = {}
        while hq:
            b = order[heapq.heappop(hq)]
            inw.discard(b)
            it += 1
            if it > 20000:
                break
            if b not in IN:
                continue
            blk = cfg["blocks"][b]
            st = set(IN[b])
            for e in blk["e"]:
                self._transfer(f, e, st)
            if blk.get("noret"):
                continue
            for si, s in enumerate(blk["s"]):
                if s is None:
                    continue
                ns = set(st)
                if len(blk["s"]) == 2 and "cond" in blk and blk.get("t") not in ("SwitchStmt", "CXXTryStmt"):
                    cn = f.nodes.get(blk["cond"])
                    if cn is not None:
                        term = f.nodes.get(blk.get("ti"))
                        add = edge.get((b, si))
                        if add is None:
                            # for logical operators clang reports the operator as terminator and its lhs as condition
                            add = self.assume(f, self._cond(f, blk, cn), si == 0)
                            edge[(b, si)] = add
                        ns |= add
                if blk.get("t") == "SwitchStmt":
                    lab = f.nodes.get(cfg["blocks"][s].get("labi", -1))
                    cn = f.nodes.get(blk.get("cond", -1))
                    if cn is not None and lab is not None and lab["k"] == "CaseStmt":
                        ns.add(("case", self.key(f, cn) + "==" + self.key(f, lab["case"]), True))
                ns = frozenset(ns)
                old = IN.get(s)
                new = ns if old is None else (old & ns)
                if new != old:
                    IN[s] = new
                    if s not in inw and s in pos:
                        inw.add(s)
                        heapq.heappush(hq, pos[s])
        f._states = IN
        f._busy = False
        return IN

    def _cond(self, f, blk, cn):
        # last evaluated part of a logical operator: clang gives the full condition on if/while terminators whose
        # condition is "a && b"; in the block evaluating b only b's value is known -> but on the true edge of the
        # branch the block's own condition is b. Use the rightmost operand when the condition is a logical operator
        # evaluated in pieces.
        n = unwrap(f, cn)
        while n["k"] == "BinaryOperator" and n.get("op") in ("&&", "||") and n["i"] not in blk["e"]:
            n = unwrap(f, n["c"][1])
        if n["k"] == "BinaryOperator" and n.get("op") in ("&&", "||"):
            # the join block: full condition known
            return n
        return cn if n is None else n

    def _transfer(self, f, e, st):
        if not isinstance(e, int):
            return
        n = f.nodes.get(e)
        if n is None:
            return
        k = n["k"]
        if k == "DeclStmt":
            for v in n.get("vars", ()):
                kill(st, "v:" + v["id"])
                # copies of a plain variable inherit its facts
            return
        if k in CALLS or k in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator"):
            if k == "UnaryOperator" and n.get("op") == "&":
                return
            for t in modified_targets(f, n):
                tk = self.key(f, t)
                if tk.startswith("#"):
                    continue
                kill(st, tk)
                r = root_var(f, t)
                if r is not None:
                    kill(st, "v:" + r)
            if k == "BinaryOperator" and n.get("op") == "=":
                self._assign(f, n["c"][0], n["c"][1], st)
            if k == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["c"]) == 3:
                self._assign(f, n["c"][1], n["c"][2], st)
            s = short(n.get("f") or "") if k in CALLS else ""
            if s in ("push_back", "emplace_back", "push_front", "emplace", "insert", "emplace_front"):
                o = call_obj(f, n)
                if o is not None:
                    st.add(("empty", self.key(f, o), False))
            # a function that returns only if its condition held (assert-like helpers)
            if k in CALLS and n.get("fid") in self.funcs and not n.get("fvirt"):
                g = self.funcs[n["fid"]]
                s2 = self.exit_summary(g)
                if s2:
                    mp = self.bind(f, n, g)
                    for (kk, key, p) in s2:
                        nk = subst(key, mp)
                        if nk is not None:
                            st.add((kk, nk, p))

    def _assign(self, f, lhs, rhs, st):
        lk, rk = self.key(f, lhs), self.key(f, rhs)
        add = set()
        for (kk, key, p) in st:
            if key == rk:
                add.add((kk, lk, p))
        st |= add
        st.add(("def", lk + ":=" + rk, True))
        r = unwrap(f, rhs)
        if is_bool(r, True):
            st.add(("true", lk, True))
        elif is_bool(r, False):
            st.add(("true", lk, False))

    def exit_summary(self, g):
        """facts about parameters that hold whenever g returns normally (used for checking helpers)"""
        kk = ("exit", g.id)
        if kk in self._summ:
            return self._summ[kk]
        self._summ[kk] = set()
        if not g.cfg or g.flag("dep"):
            return set()
        has_throw = any(n["k"] == "CXXThrowExpr" for n in g.nodes.values())
        if not has_throw:
            # only helpers that contain or reach a throw via one level
            if not any(n.get("fid") in self.funcs and any(m["k"] == "CXXThrowExpr" for m in self.funcs[n["fid"]].nodes.values())
                       for n in g.calls()):
                return set()
        res = None
        ex = g.cfg["exit"]
        IN = self.states(g)
        for (p, si) in g.cfg["preds"].get(ex, ()):
            if p not in IN:
                continue
            blk = g.cfg["blocks"][p]
            els = [g.nodes.get(e) for e in blk["e"] if isinstance(e, int)]
            if blk.get("noret") or any(x is not None and x["k"] == "CXXThrowExpr" for x in els):
                continue
            st = set(IN[p])
            for e in blk["e"]:
                self._transfer(g, e, st)
            if len(blk["s"]) == 2 and "cond" in blk:
                cn = g.nodes.get(blk["cond"])
                if cn is not None:
                    st |= self.assume(g, self._cond(g, blk, cn), si == 0)
            res = st if res is None else res & st
        ok = set()
        pids = {"v:" + p["id"] for p in g.params}
        for x in res or ():
            if x[0] == "def":
                continue
            vs = set(re.findall(r"v:[\w~]*#\d+:\d+", x[1]))
            if vs <= pids:
                ok.add(x)
        self._summ[kk] = ok
        return ok

    def state_at(self, f, n):
        """must-facts just before node n is evaluated; None if unreachable"""
        IN = self.states(f)
        loc = self.where(f, n)
        if loc is None:
            return None
        b, idx = loc
        if b not in IN:
            return None
        st = set(IN[b])
        for e in f.cfg["blocks"][b]["e"][:idx]:
            self._transfer(f, e, st)
        return st

    def where(self, f, n):
        """(block, element index) of node n (or of the nearest enclosing node that is a CFG element)"""
        m = getattr(f, "_where", None)
        if m is None:
            m = {}
            for bid, b in f.cfg["blocks"].items():
                for i, e in enumerate(b["e"]):
                    x = e if isinstance(e, int) else e.get("e")
                    if x is not None and x not in m:
                        m[x] = (bid, i)
            f._where = m
        x = n
        while x is not None:
            if x["i"] in m:
                return m[x["i"]]
            x = f.parent(x)
        return None


def is_default_construct(n):
    return n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not n.get("c")


def is_bool(n, v):
    return n is not None and n["k"] == "CXXBoolLiteralExpr" and n.get("v") == ("1" if v else "0")


def const_int(f, n):
    n = unwrap(f, n)
    if n["k"] == "IntegerLiteral":
        return int(n["v"])
    if "ev" in n:
        return int(n["ev"])
    return None


def kill(st, key):
    if not key or key == "?":
        return
    pat = re.compile(re.escape(key) + r"(?![\w#:])")
    for x in [x for x in st if key in x[1]]:
        if pat.search(x[1]):
            st.discard(x)


def subst(key, mp):
    def rep(m):
        v = mp.get(m.group(0))
        return v if v is not None else m.group(0)
    if "this" in mp and mp["this"] != "this":
        t = mp["this"]
        key = re.sub(r"(?<![\w:])\*?this(?=\.)", lambda m: t, key)
        key = re.sub(r"(?<![\w:])this(?![\w.])", lambda m: t, key)
    return re.sub(r"v:[\w~]*#\d+:\d+", rep, key)


def rpo(cfg):
    seen = set()
    out = []
    st = [(cfg["entry"], 0)]
    seen.add(cfg["entry"])
    while st:
        b, i = st[-1]
        ss = cfg["blocks"][b]["s"]
        if i < len(ss):
            st[-1] = (b, i + 1)
            s = ss[i]
            if s is not None and s not in seen:
                seen.add(s)
                st.append((s, 0))
        else:
            out.append(b)
            st.pop()
    return out[::-1]


def subtree_ids(n):
    return {x["i"] for x in walk(n)}
