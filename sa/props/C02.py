"""C02: constant operations never write unsynchronised shared memory; lazily computed values are published and read atomically."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from ..feeds import last
from .V02 import wk

LOADS = {"atomic_load", "atomic_load_explicit"}
STORES = {"atomic_store", "atomic_store_explicit"}
RMW = {"atomic_exchange", "atomic_exchange_explicit", "atomic_compare_exchange_strong", "atomic_compare_exchange_weak",
       "atomic_compare_exchange_strong_explicit", "atomic_compare_exchange_weak_explicit"}
ORDERS = {0: "relaxed", 1: "consume", 2: "acquire", 3: "release", 4: "acq_rel", 5: "seq_cst"}
SYNC = re.compile(r"^(const )?(volatile )?(std::atomic|std::atomic_|std::mutex|std::shared_mutex|std::recursive_mutex|std::shared_timed_mutex|std::timed_mutex|std::once_flag|std::condition_variable|boost::atomic|boost::mutex|boost::shared_mutex)")
GUARD = re.compile(r"(std|boost)::(lock_guard|unique_lock|scoped_lock|shared_lock)<")
UNSAFE = {"strtok", "rand", "srand", "localtime", "gmtime", "asctime", "ctime", "setlocale", "tmpnam", "strerror", "drand48", "lrand48", "random", "setenv", "putenv",
          "unsetenv", "std::strtok", "std::rand", "std::srand", "std::localtime", "std::gmtime", "std::asctime", "std::ctime", "std::setlocale", "std::tmpnam", "std::strerror"}
STREAMS = {"std::cout", "std::cerr", "std::clog", "std::wcout", "std::wcerr"}
CASTS = ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXDynamicCastExpr", "ParenExpr", "CXXReinterpretCastExpr")
READS_MAP = re.compile(r"(std|boost)::(unordered_)?(multi)?map::")


class Run:
    def __init__(self, c):
        self.c = c
        self.P = c.program("core", "io", "projection", "traffic_rules", "routing", "matching", "validation")
        self.lib = [f for f in self.P.lib() if f.d.get("body") is not None or f.cfg or f.nodes]
        self.memo = {}

    # ---- where an lvalue lives
    def place(self, f, n, seen=frozenset()):
        """(kind, name, derefs): kind this/parm/global/static/single/local/fresh"""
        P = self.P
        d = 0
        while n is not None:
            n = f.node(n)
            k = n["k"]
            if k == "CXXThisExpr":
                return "this", "", d
            if k == "MemberExpr" and not n.get("fid") and n.get("c"):
                t = f.type(f.node(n["c"][0]))
                d += 1 if n.get("arrow") and f.node(n["c"][0])["k"] != "CXXThisExpr" and not t.endswith("&") else 0
                n = n["c"][0]
                continue
            if k == "MemberExpr" and not n.get("fid"):
                return "global", n.get("m", ""), d
            if k in CASTS and n.get("c"):
                n = n["c"][0]
                continue
            if k == "UnaryOperator" and n.get("op") in ("*", "&"):
                d += 1 if n["op"] == "*" and f.node(n["c"][0])["k"] != "CXXThisExpr" else 0
                n = n["c"][0]
                continue
            if k == "ArraySubscriptExpr":
                n = n["c"][0]
                continue
            if k == "DeclRefExpr":
                v = n.get("d", {})
                if v.get("tls"):
                    return "local", v["n"], d
                if v.get("k") == "Global":
                    return "global", v["n"], d
                if v.get("k") not in ("Var", "Parm"):
                    return "other", v.get("n", ""), d
                i = v.get("id")
                if v["k"] == "Parm" and any(p["id"] == i for p in f.params):
                    return "parm", [p["id"] for p in f.params].index(i), d
                dn = self.decl(f, i)
                if dn is None:
                    return "local", v["n"], d
                if dn.get("static") and not dn.get("tls"):
                    return "static", "%s::%s" % (f.name, v["n"]), d
                t = f.types[dn["t"]]
                init = dn.get("init")
                if init is None or i in seen or not (t.endswith("&") or t.endswith("*") or t.endswith("* const")):
                    return "local", v["n"], d
                r = self.place(f, init, seen | {i})
                return r[0], r[1], r[2] + d
            if k in CALLS:
                o = call_obj(f, n)
                nm = last(n.get("f", ""))
                if n.get("op") in ("*", "->") or nm in ("get", "operator->", "operator*"):
                    d += 1
                    n = o if o is not None else n["c"][1] if len(n["c"]) > 1 else None
                    if n is None:
                        return "other", nm, d
                    continue
                if n.get("op") == "[]" or nm in ("at", "front", "back", "top", "value", "data"):
                    n = o if o is not None else n["c"][1]
                    continue
                if n.get("f") in ("std::move", "std::forward", "std::ref", "boost::get", "std::get"):
                    n = n["c"][1]
                    continue
                tg = P.targets(n)
                for g in tg[:3]:
                    if g.ret and g.types[g.d["ret"]].endswith(("&", "*")):
                        rs = [self.place(g, r["c"][0]) for r in g.all("ReturnStmt") if r.get("c") and r["c"][0] is not None]
                        for r in rs:
                            if r[0] in ("static", "global"):
                                return "single" if r[0] == "static" and not f.types and False else r[0], r[1], d
                            if r[0] == "this" and o is not None:
                                a = self.place(f, o, seen)
                                return a[0], a[1], a[2] + r[2] + d + (1 if self.arrow(f, n) else 0)
                return "fresh", nm, d
            return "fresh", k, d
        return "other", "", d

    def arrow(self, f, n):
        c0 = f.node(n["c"][0])
        return c0["k"] == "MemberExpr" and c0.get("arrow") and c0.get("c") and f.node(c0["c"][0])["k"] != "CXXThisExpr"

    def decl(self, f, i):
        key = ("decl", id(f))
        if key not in self.memo:
            self.memo[key] = {v["id"]: v for n in f.nodes.values() if n["k"] == "DeclStmt" for v in n["vars"]}
        return self.memo[key].get(i)

    # ---- what a function modifies of what it is given
    def targets(self, f):
        for n in f.nodes.values():
            k = n["k"]
            if k == "UnaryOperator" and n.get("op") == "&":
                continue
            if k not in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and k not in CALLS:
                continue
            for t in modified_targets(f, n):
                yield n, t
            if k in CALLS and not n.get("fconst"):
                o = call_obj(f, n)
                if o is not None and n.get("op") == "[]" and READS_MAP.match(n.get("f") or ""):
                    yield n, o

    def effects(self, f):
        """[(kind, name, derefs, node)] f writes, callees in the library included"""
        if f.id in self.memo:
            return self.memo[f.id]
        self.memo[f.id] = []
        out = []
        for n, t in self.targets(f):
            if not self.writes(f, n, t):
                continue
            r = self.place(f, t)
            if r[0] in ("fresh", "local", "other"):
                continue
            out.append((r[0], r[1], r[2], n))
        self.memo[f.id] = out
        return out

    def writes(self, f, n, t):
        """a call modifies its non-const argument/object only if the callee, where we have it, does"""
        if n["k"] not in CALLS or n.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--"):
            return True
        tg = [g for g in self.P.targets(n) if g.nodes]
        if not tg:
            nm = n.get("f") or ""
            if nm in ("std::forward", "std::move", "boost::apply_visitor", "std::get", "boost::get"):
                return False
            return True
        o = call_obj(f, n)
        args = call_args(f, n)
        for g in tg:
            e = self.effects(g)
            if o is not None and f.node(o)["i"] == f.node(t)["i"] and (any(x[0] == "this" for x in e)):
                return True
            for j, a in enumerate(args):
                if f.node(a)["i"] == f.node(t)["i"] and any(x[0] == "parm" and x[1] == j for x in e):
                    return True
        return False

    # ---- run
    def run(self):
        c = self.c
        c.rule("C02.lazy", "every access a constant operation makes to a mutable member of a shared object is atomic (or made under a lock)", 6)
        c.rule("C02.order", "atomic accesses to lazily computed values order the value's construction before its use", 6)
        c.rule("C02.keep", "what is read from a lazily computed member is kept alive (or copied) while it is used, and nothing returned refers into it", 3)
        c.rule("C02.publish", "a lazily computed value is complete before it is published and not modified afterwards", 4)
        c.rule("C02.copy", "copying an object with lazily computed members reads them atomically", 3)
        c.rule("C02.const", "no constant operation writes to what its object points to", 100)
        c.rule("C02.global", "variables with static storage are only written atomically, or while factories are being filled", 20)
        c.rule("C02.libc", "no operation uses a function of the C library that keeps hidden state", 1)
        self.fields()
        self.accesses()
        self.keep()
        self.copies()
        self.constops()
        self.globals()
        self.libc()
        c.analysed["functions"] = len(self.lib)
        c.analysed["lazy members"] = sorted(self.lazy)

    def fields(self):
        P = self.P
        recs = []
        self.sync = set()
        for q, r in P.recbyname.items():
            for x in (r if isinstance(r, list) else [r]):
                recs.append((q, x))
        mut = {}
        for q, r in recs:
            for x in r.get("fields", ()):
                t = r["_types"][x["t"]]
                if x.get("mutable") and SYNC.match(t):
                    self.sync.add("%s::%s" % (q, last(x["n"])))
                elif x.get("mutable"):
                    mut.setdefault(q, set()).add(last(x["n"]))
        # objects that live inside an iterator belong to one thread
        exempt = set()
        for q in mut:
            s = last(q)
            users = {p for p, r in recs if any(re.search(r"\b%s\b" % re.escape(s), r["_types"][x["t"]]) for x in r.get("fields", ())) or
                     any(re.search(r"\b%s\b" % re.escape(s), str(b)) for b in r.get("bases", ()))}
            users -= {q}
            cl, todo = set(), list(users)
            while todo:
                u = todo.pop()
                if u in cl:
                    continue
                cl.add(u)
                if last(u).endswith("Iterator"):
                    continue
                todo += [p for p, r in recs if any(re.search(r"\b%s\b" % re.escape(last(u)), r["_types"][x["t"]]) for x in r.get("fields", ()))]
            it = {p for p in cl if re.search(r"Iterator$|Converter$", last(p)) or any("iterator_" in str(b) for p2, r in recs if p2 == p for b in r.get("bases", ()))}
            if users and cl == it and not any(re.search(r"\b%s\b" % re.escape(s), g) for g in ()):
                exempt.add(q)
        self.exempt = exempt
        self.mut = {q: m for q, m in mut.items() if q not in exempt}
        self.lazy = {"%s::%s" % (q, m) for q, ms in self.mut.items() for m in ms}
        for q in sorted(exempt):
            self.c.note("%s has mutable members but only lives inside iterators, which belong to one thread" % q)
        if not any(x.startswith("lanelet::LaneletData::") for x in self.lazy):
            raise AnalysisBroken("no lazily computed member of LaneletData")

    def islazy(self, n):
        return n["k"] == "MemberExpr" and not n.get("fid") and (n.get("m") in self.lazy or any(n.get("m") == x for x in self.lazy))

    def aliases(self):
        """parameters of library functions a lazy member is handed to by reference or pointer: {(fid, index)}"""
        P = self.P
        al = set()
        todo = []

        def visit(f, n, isref):
            # n: node denoting the lazy object
            up = f.parent(n)
            while up is not None and (up["k"] in CASTS or up["k"] == "UnaryOperator" and up.get("op") == "&"):
                n, up = up, f.parent(up)
            if up is not None and up["k"] in CALLS and last(up.get("f", "")) not in LOADS | STORES | RMW:
                for j, a in enumerate(call_args(f, up)):
                    if f.node(a)["i"] == n["i"]:
                        for g in P.targets(up):
                            if j < len(g.params) and g.types[g.params[j]["t"]].endswith(("&", "*")) and (g.id, j) not in al:
                                al.add((g.id, j))
                                todo.append((g, j))
        for f in self.lib:
            for n in f.nodes.values():
                if self.islazy(n):
                    visit(f, n, True)
        while todo:
            g, j = todo.pop()
            pid = g.params[j]["id"]
            for n in g.nodes.values():
                if n["k"] == "DeclRefExpr" and n.get("d", {}).get("id") == pid:
                    visit(g, n, True)
        self.al = al

    def sites(self, f):
        """nodes of f denoting a lazy member, directly or through a parameter / local reference"""
        ids = {g.params[j]["id"] for g, j in ((f, j) for (fid, j) in self.al if fid == f.id) if j < len(g.params)}
        for n in f.nodes.values():
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    t = f.types[v["t"]]
                    if v.get("init") is not None and t.endswith(("&", "*")) and not v.get("bind"):
                        x = unwrap(f, v["init"])
                        while x["k"] == "UnaryOperator" and x.get("op") == "&":
                            x = unwrap(f, x["c"][0])
                        if self.islazy(x) or x["k"] == "DeclRefExpr" and x.get("d", {}).get("id") in ids:
                            ids.add(v["id"])
        for n in f.nodes.values():
            if self.islazy(n):
                yield n, n["m"], True
            elif n["k"] == "DeclRefExpr" and n.get("d", {}).get("id") in ids:
                yield n, "%s(%s)" % (f.short, n["d"]["n"]), False

    def atomic(self, f, n):
        """the atomic operation n (a lazy object) is the subject of"""
        x, up = n, f.parent(n)
        while up is not None and (up["k"] in CASTS or up["k"] == "UnaryOperator" and up.get("op") == "&"):
            x, up = up, f.parent(up)
        if up is None:
            return None, None
        if up["k"] in CALLS:
            nm = last(up.get("f", ""))
            a = call_args(f, up)
            if nm in LOADS | STORES | RMW and a and f.node(a[0])["i"] == x["i"]:
                return nm, up
        return "", up

    def locked(self, f, n):
        """a lock of a mutex member is held from before n to the end of its scope"""
        gs = {x["i"] for x in f.nodes.values() if x["k"] == "DeclStmt" and any(GUARD.search(f.types[v["t"]]) for v in x["vars"])}
        gs |= {x["i"] for x in f.nodes.values() if x["k"] in CALLS and last(x.get("f", "")) == "call_once"}
        if not gs:
            return False
        return not self.hit(f, None, gs, [n])

    def shared(self, f):
        """f can run on an object other threads see: not a constructor, destructor or mutating member"""
        if f.kind in ("ctor", "dtor"):
            return False
        if f.kind in ("method", "conv"):
            return bool(f.d.get("const"))
        return True

    def enclosing_const(self, f):
        return self.shared(f)

    def accesses(self):
        c, P = self.c, self.P
        self.aliases()
        self.loads, self.stores = [], []
        for f in self.lib:
            for n, what, direct in self.sites(f):
                nm, call = self.atomic(f, n)
                key = "%s:%s" % (f.name, what)
                if nm in LOADS:
                    self.loads.append((f, call, what))
                elif nm in STORES | RMW:
                    self.stores.append((f, call, what))
                if nm:
                    want = {2, 4, 5, 1} if nm in LOADS else {3, 4, 5}
                    if nm.endswith("_explicit"):
                        o = [const_int(f, a) for a in call_args(f, call)[1:]]
                        o = [x for x, a in zip(o, call_args(f, call)[1:]) if "memory_order" in f.type(f.node(a))]
                        if o and o[0] is None:
                            c.note("%s: memory order of %s not constant" % (f.loc(call), what))
                        elif o:
                            c.ob("C02.order", o[0] in want, f.loc(call), key + ":" + nm, "%s of %s uses memory order %s" % (nm, what, ORDERS.get(o[0], o[0])))
                    else:
                        c.ob("C02.order", True, f.loc(call), key + ":" + nm, "")
                    c.ob("C02.lazy", True, f.loc(n), key, "")
                    continue
                if not self.shared(f) and direct:
                    continue
                if f.kind == "ctor":
                    continue
                if call is not None and call["k"] in CALLS:
                    # handed on: judged there
                    x = n
                    up = f.parent(x)
                    while up["i"] != call["i"]:
                        x, up = up, f.parent(up)
                    j = [f.node(a)["i"] for a in call_args(f, call)]
                    if x["i"] in j and all((g.id, j.index(x["i"])) in self.al for g in P.targets(call)) and P.targets(call):
                        c.ob("C02.lazy", True, f.loc(n), key, "")
                        continue
                if call is not None and call["k"] == "DeclStmt" and any(f.types[v["t"]].endswith(("&", "*")) for v in call["vars"]):
                    continue
                ok = self.locked(f, n)
                c.ob("C02.lazy", ok, f.loc(n), key, "%s accesses %s without synchronisation" % (f.name, what))

    # ---- values read from lazy members
    def keep(self):
        c, P = self.c, self.P
        loads = [(f, n, w) for f, n, w in self.loads]
        fs = {}
        for f, n, w in loads:
            fs.setdefault(f.id, (f, []))[1].append((n, w))
        bad = set()
        for f, ns in fs.values():
            for n, w in ns:
                key = "%s:%s" % (f.name, w)
                up = f.parent(n)
                ok = True
                # a pointer or reference into the temporary the load returns
                while up is not None and up["k"] != "DeclStmt" and up["k"] not in ("ReturnStmt", "CompoundStmt", "IfStmt"):
                    up = f.parent(up)
                if up is not None and up["k"] == "DeclStmt":
                    for v in up["vars"]:
                        if v.get("init") is None or n["i"] not in subtree_ids(f.node(v["init"])):
                            continue
                        t = f.types[v["t"]]
                        direct = unwrap(f, v["init"])["i"] == n["i"]
                        if t.endswith("*") or t.endswith("* const") or t.endswith("&") and not direct:
                            ok = False
                c.ob("C02.keep", ok, f.loc(n), key, "%s keeps a pointer into %s without owning it" % (f.name, w))
            # nothing returned refers to the local that owns the value
            t = f.types[f.d["ret"]] if f.d.get("ret") is not None else "void"
            if self.borrowed(t):
                own = self.derived(f, {n["i"] for n, w in ns})
                for r in f.all("ReturnStmt"):
                    if not r.get("c") or r["c"][0] is None:
                        continue
                    ok = not any(x["k"] == "DeclRefExpr" and x.get("d", {}).get("id") in own or x["i"] in {n["i"] for n, w in ns} for x in wk(f, r["c"][0]))
                    ok = ok and not any(self.islazy(x) for x in wk(f, r["c"][0]))
                    c.ob("C02.keep", ok, f.loc(r), "%s:return" % f.name, "%s returns a %s into a value another reader may replace" % (f.name, t))
        # what another thread may hold is not modified
        for f, ns in fs.values():
            for n, w in ns:
                par = f.parent(n)
                while par is not None and par["k"] not in ("DeclStmt", "CompoundStmt"):
                    par = f.parent(par)
                if par is None or par["k"] != "DeclStmt":
                    continue
                for v in par["vars"]:
                    if v.get("init") is None or unwrap(f, v["init"])["i"] != n["i"] and f.node(v["init"])["i"] != n["i"]:
                        continue
                    own = {x["i"] for x in f.nodes.values() if (x["k"] == "BinaryOperator" or x["k"] in CALLS) and x.get("op") == "=" and
                           root_var(f, x["c"][1] if x["k"] in CALLS else x["c"][0]) == v["id"]}
                    own |= {x["i"] for x in f.nodes.values() if x["k"] in CALLS and last(x.get("f", "")) in ("reset", "swap") and call_obj(f, x) is not None and root_var(f, call_obj(f, x)) == v["id"]}
                    hits = [x for x, t in self.targets(f) if self.deref_of(f, t, v["id"])]
                    ok = not hits or not self.hit(f, par, own, hits)
                    c.ob("C02.publish", ok, f.loc(n), "%s:%s:loaded" % (f.name, w), "%s modifies the value it read from %s" % (f.name, w))
        # a second, unsynchronised look at the member through the owner
        for f, n, w in self.stores:
            a = call_args(f, n)
            if len(a) < 2:
                continue
            v = unwrap(f, a[1] if "compare" not in last(n["f"]) else a[2])
            key = "%s:%s" % (f.name, w)
            ok = True
            x = v
            while x["k"] in CASTS:
                x = f.node(x["c"][0])
            if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") in ("Var", "Parm"):
                vid = x["d"]["id"]
                ok = not self.modified_after(f, n, vid)
            c.ob("C02.publish", ok, f.loc(n), key, "%s goes on modifying the value it published in %s" % (f.name, w))

    @staticmethod
    def borrowed(t):
        return t.endswith(("&", "*", "* const")) or re.search(r"optional<[^<>]*&>|string_view|reference_wrapper|_iterator", t) is not None

    def derived(self, f, seeds):
        """locals holding a load's result or pointing into it"""
        own = set()
        for _ in range(4):
            for n in f.nodes.values():
                if n["k"] == "DeclStmt":
                    for v in n["vars"]:
                        if v.get("init") is not None and any(x["i"] in seeds or x["k"] == "DeclRefExpr" and x.get("d", {}).get("id") in own for x in wk(f, v["init"])):
                            t = f.types[v["t"]]
                            if "shared_ptr" in t or t.endswith(("&", "*")):
                                own.add(v["id"])
        return own

    def modified_after(self, f, call, vid):
        """through the pointer vid, something is written after call"""
        hits = [n for n, t in self.targets(f) if self.deref_of(f, t, vid)]
        return bool(hits) and self.hit(f, call, set(), hits)

    def hit(self, f, start, block, goals):
        """some path from start (None: the entry) reaches one of goals before a node of block"""
        P, cfg = self.P, f.cfg
        want = {}
        for g in goals:
            w = P.where(f, g)
            x = g
            while w is None and f.parent(x) is not None:
                x = f.parent(x)
                w = P.where(f, x)
            if w is not None:
                want.setdefault(w[0], set()).add(w[1])
        B = cfg["blocks"]
        if start is None:
            st = [(cfg["entry"], 0)]
        else:
            w = P.where(f, start)
            if w is None:
                return False
            st = [(w[0], w[1] + 1)]
        seen = set()
        while st:
            b, i = st.pop()
            stopped = False
            for k in range(i, len(B[b]["e"])):
                if k in want.get(b, ()):
                    return True
                if B[b]["e"][k] in block:
                    stopped = True
                    break
            if stopped:
                continue
            for s in B[b]["s"]:
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append((s, 0))
        return False

    def deref_of(self, f, t, vid):
        n = f.node(t)
        deref = False
        while n is not None:
            k = n["k"]
            if k == "DeclRefExpr":
                return deref and n.get("d", {}).get("id") == vid
            if k == "MemberExpr" and n.get("c"):
                deref = deref or bool(n.get("arrow"))
                n = f.node(n["c"][0])
                continue
            if k in CASTS or k == "ArraySubscriptExpr":
                n = f.node(n["c"][0])
                continue
            if k in CALLS:
                if n.get("op") in ("*", "->"):
                    deref = True
                    n = f.node(n["c"][1])
                    continue
                o = call_obj(f, n)
                if o is not None and last(n.get("f", "")) in ACCESSORS | {"get"}:
                    deref = deref or last(n["f"]) == "get"
                    n = o
                    continue
            if k == "UnaryOperator" and n.get("op") == "*":
                deref = True
                n = f.node(n["c"][0])
                continue
            return False
        return False

    # ---- copies
    def copies(self):
        c, P = self.c, self.P
        for q, ms in sorted(self.mut.items()):
            s = re.escape(last(q))
            byval = self.byvalue(q)
            if not byval:
                c.ob("C02.copy", True, q, q + ":copy", "")
                continue
            for what, kind in (("copy constructor", "ctor"), ("copy assignment", "method")):
                fs = [f for f in P.funcs.values() if f.cls == q and len(f.params) == 1 and re.match(r"^const (\w+::)*%s &$" % s, f.types[f.params[0]["t"]])
                      and (f.kind == "ctor" or last(f.name) == "operator=") and (f.kind == "ctor") == (kind == "ctor")]
                user = [f for f in fs if f.nodes or f.d.get("inits")]
                gone = [f for f in fs if f.d.get("deleted")]
                if user:
                    for f in user:
                        ok = self.copyok(f, ms)
                        c.ob("C02.copy", ok, f.loc(), "%s:%s" % (q, what), "the %s of %s reads %s of the copied object without synchronisation" % (what, q, "/".join(sorted(ms))))
                else:
                    d = self.deletes(q, kind)
                    c.ob("C02.copy", bool(gone) or d, byval, "%s:%s" % (q, what),
                         "%s is held by value but its implicit %s reads %s of the copied object without synchronisation" % (q, what, "/".join(sorted(ms))))

    def copyok(self, f, ms):
        pid = f.params[0]["id"]
        nodes = list(f.nodes.values())
        for n in nodes:
            if n["k"] == "MemberExpr" and not n.get("fid") and last(n["m"]) in ms and n.get("c"):
                if any(x["k"] == "DeclRefExpr" and x.get("d", {}).get("id") == pid for x in wk(f, n["c"][0])):
                    nm, call = self.atomic(f, n)
                    if not nm and not self.locked(f, n):
                        return False
        # not via a swap or default copy of the whole object
        for n in nodes:
            if n["k"] in CALLS and n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.get("copy") and any(
                    x["k"] == "DeclRefExpr" and x.get("d", {}).get("id") == pid for x in wk(f, n)) and f.type(n).replace("const ", "") == f.cls:
                return f.kind != "ctor"
        return True

    def deletes(self, q, kind):
        """another member (unique_ptr, a deleted copy of a base or field) deletes the operation"""
        r = self.P.recbyname.get(q)
        r = r[0] if isinstance(r, list) and r else r
        return any(re.match(r"^(std::unique_ptr|std::mutex|std::atomic|std::once_flag)\b", r["_types"][x["t"]]) for x in r.get("fields", ()))

    def byvalue(self, q):
        """somewhere objects of the class are held or copied by value (not behind a pointer): where"""
        s = re.escape(last(q))
        ptr = re.compile(r"(std::|boost::)?(shared_ptr|weak_ptr|unique_ptr|enable_shared_from_this)<(const )?(\w+::)*%s>|(const )?(\w+::)*%s (const )?[*&]+" % (s, s))
        pat = re.compile(r"(?<![\w])(lanelet::)(\w+::)*%s(?![\w:])" % s)
        for p, rs in self.P.recbyname.items():
            for r in (rs if isinstance(rs, list) else [rs]):
                for x in r.get("fields", ()):
                    t = ptr.sub("", r["_types"][x["t"]])
                    if re.match(r"(const )?(std|boost)::(shared_ptr|weak_ptr|unique_ptr)<", t):
                        continue
                    if pat.search(t) and "type-parameter" not in t:
                        return "%s::%s" % (p, last(x["n"]))
        for f in self.lib:
            for n in f.nodes.values():
                if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.get("copy") and pat.fullmatch(f.type(n).replace("const ", "")):
                    return f.loc(n)
        return None

    # ---- constant operations
    def constops(self):
        c = self.c
        skip = re.compile(r"Iterator$|Converter$|Visitor$")
        for f in self.lib:
            if f.kind not in ("method", "conv") or not f.d.get("const") or f.flag("dep"):
                continue
            if not f.cls or f.cls in self.exempt or skip.search(last(f.cls)) or "(anon)" in f.cls or f.d.get("lambda"):
                continue
            bad = None
            for g in [f] + self.inner(f):
                for kind, nm, d, n in self.effects(g):
                    if kind == "this" and not self.lazy_target(g, n):
                        bad = bad or (g, n)
            c.ob("C02.const", bad is None, (bad[0].loc(bad[1]) if bad else f.loc()), f.name, "the constant operation %s writes to what %s points to" % (f.name, f.cls))

    def inner(self, f):
        out = []
        for n in f.nodes.values():
            if n["k"] == "LambdaExpr":
                out += self.P.lambdas(n)
        return out

    def lazy_target(self, f, n):
        if n["k"] in CALLS and last(n.get("f", "")) in STORES | RMW | LOADS:
            return True
        for m in modified_targets(f, n):
            if any(self.islazy(x) or x["k"] == "MemberExpr" and x.get("m") in self.sync for x in wk(f, m)):
                return True
        return False

    # ---- static storage
    def globals(self):
        c, P = self.c, self.P
        fill = {}
        for f in self.lib:
            for n in f.nodes.values():
                if n["k"] == "DeclStmt":
                    for v in n["vars"]:
                        if v.get("static") and not f.types[v["t"]].startswith("const "):
                            c.ob("C02.global", True, f.loc(n), "%s::%s" % (f.name, v["n"]), "")
        single = {}
        for f in self.lib:
            if f.kind == "method" and f.d.get("static") and f.d.get("ret") is not None and f.types[f.d["ret"]].endswith("&"):
                for r in f.all("ReturnStmt"):
                    if r.get("c") and r["c"][0] is not None and self.place(f, r["c"][0])[0] == "static":
                        single.setdefault(f.cls, f)
        c.analysed["singletons"] = sorted(single)
        for f in self.lib:
            own = f.cls in single and f.kind == "method"
            for g in [f]:
                for kind, nm, d, n in self.effects(g):
                    if kind == "this" and own and not f.d.get("static"):
                        self.filler(f, n)
                    elif kind in ("global", "static"):
                        if nm in STREAMS:
                            continue
                        t = self.gtype(f, n, nm)
                        ok = bool(t and SYNC.match(t)) and self.atomic_op(f, n)
                        if not ok:
                            ok = self.registers(f, n)
                        c.ob("C02.global", ok, f.loc(n), "%s:%s" % (f.name, nm), "%s writes %s, which every thread shares" % (f.name, nm))

    def atomic_op(self, f, n):
        """a single atomic operation; v = v + 1 on an atomic is two"""
        if n["k"] in CALLS and n.get("op") == "=":
            a = call_args(f, n)
            obj = call_obj(f, n)
            k1 = self.P.key(f, obj) if obj is not None else None
            return not any(k1 is not None and x["k"] in ("DeclRefExpr", "MemberExpr") and self.P.key(f, x) == k1 for y in a for x in wk(f, y))
        return True

    def gtype(self, f, n, nm):
        for t in modified_targets(f, n):
            for x in wk(f, t):
                if x["k"] in ("DeclRefExpr", "MemberExpr"):
                    return f.type(x)
        return None

    def registers(self, f, n):
        """f only runs to fill a factory: it is the constructor of objects that only live in static storage"""
        if f.kind != "ctor" or n["k"] not in CALLS:
            return False
        if not hasattr(self, "built"):
            self.built = {}
            for g in self.lib:
                for x in g.nodes.values():
                    if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                        par = g.parent(x)
                        if par is not None and par["k"] == "DeclStmt" and any(v.get("static") for v in par["vars"]):
                            continue
                        self.built.setdefault(x.get("f"), (g, x))
        return f.name not in self.built

    def filler(self, f, n):
        c = self.c
        for g, x in self.P.callsites(f.id):
            ok = g.kind == "ctor" or re.match(r"register", g.short) is not None
            c.ob("C02.global", ok, g.loc(x), "%s>%s" % (g.name, f.name), "%s changes the factory %s while others may be using it" % (g.name, f.cls or f.name))
        return True

    def libc(self):
        c = self.c
        k = 0
        for f in self.lib:
            for n in f.nodes.values():
                if n["k"] in CALLS and n.get("f") in UNSAFE:
                    a = call_args(f, n)
                    if last(n["f"]) == "setlocale" and len(a) > 1 and (unwrap(f, a[1])["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or const_int(f, a[1]) == 0):
                        continue
                    c.ob("C02.libc", False, f.loc(n), "%s:%s" % (f.name, n["f"]), "%s calls %s, which keeps state shared by all threads" % (f.name, n["f"]))
            k += 1
        c.ob("C02.libc", True, "", "functions:%d" % (k > 0), "")


def run(c):
    Run(c).run()
