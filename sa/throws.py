"""Which exceptions can leave a function: throw expressions and known throwing operations of third party components, propagated
over the call graph (virtual calls to all overriders, lambdas and functors at the place where they are handed over), minus what
enclosing handlers catch."""
import re
from .core import *

STDBASE = {
    "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::range_error": "std::runtime_error", "std::regex_error": "std::runtime_error", "GeographicLib::GeographicErr": "std::runtime_error",
    "boost::bad_get": "std::exception", "boost::archive::archive_exception": "std::exception", "boost::bad_lexical_cast": "std::bad_cast",
    "std::bad_cast": "std::exception", "boost::bad_optional_access": "std::logic_error", "std::bad_weak_ptr": "std::exception",
    "boost::filesystem::filesystem_error": "std::runtime_error", "std::bad_function_call": "std::exception",
    "std::bad_optional_access": "std::exception", "boost::program_options::error": "std::logic_error",
}
NUM = re.compile(r"^std::(__cxx11::)?sto(i|l|ll|ul|ull|f|d|ld)$")


def clean(t):
    return re.sub(r"\b(const|volatile|class|struct|enum)\b", "", t).replace("&", "").replace("(anonymous namespace)", "(anon)").strip()


class Throws:
    def __init__(self, P, third=None, skip=None, label=None):
        """third(f, n) -> exception type or list of types of a third party operation (None: cannot throw);
        skip(f, n) -> True: the call raises nothing; set of types: these are not raised by this call"""
        self.P = P
        self.third = third or (lambda f, n: None)
        self.skip = skip or (lambda f, n: False)
        self.label = label or (lambda f, n, t: t)
        self.esc = {}
        self.sites = {}
        self.ctx = {}
        self.build()

    def dropped(self, f, n):
        k = ("drop", f.id, n["i"])
        if k not in self.ctx:
            r = self.skip(f, n) if n["k"] in CALLS else ()
            self.ctx[k] = r if isinstance(r, (set, tuple, frozenset)) else ()
        return self.ctx[k]

    def base(self, t):
        r = self.P.recbyname.get(t)
        if r:
            r = r[0] if isinstance(r, list) else r
            for b in r["bases"]:
                yield b.get("n") or b["t"]
        if t in STDBASE:
            yield STDBASE[t]

    def isa(self, t, u):
        t = t.split("@")[0]
        if t == u:
            return True
        return any(self.isa(b, u) for b in self.base(t))

    def handlers(self, f, n):
        """handlers protecting node n, innermost first: list of (catch types or None for all)"""
        key = (f.id, n["i"])
        if key in self.ctx:
            return self.ctx[key]
        r = []
        cur, p = n, f.parent(n)
        while p is not None:
            if p["k"] == "CXXTryStmt" and kids(p) and f.node(kids(p)[0]) is f.node(cur):
                hs = []
                for h in kids(p)[1:]:
                    h = f.node(h)
                    hs.append(clean(f.types[h["ct"]]) if isinstance(h.get("ct"), int) and h["ct"] >= 0 else None)
                r.append(hs)
            cur, p = p, f.parent(p)
        self.ctx[key] = r
        return r

    def caught(self, f, n, t):
        return any(h is None or self.isa(t, h) for hs in self.handlers(f, n) for h in hs)

    def own(self, f):
        """(node, types thrown directly, callee functions)"""
        if f.id in self.sites:
            return self.sites[f.id]
        out = []
        P = self.P
        for n in f.all():
            k = n["k"]
            if k == "CXXThrowExpr":
                if n.get("c"):
                    out.append((n, [clean(f.type(f.node(n["c"][0])))], []))
                else:
                    c = n
                    while c is not None and c["k"] != "CXXCatchStmt":
                        c = f.parent(c)
                    if c is not None and isinstance(c.get("ct"), int) and c["ct"] >= 0:
                        out.append((n, [clean(f.types[c["ct"]])], []))
            elif k == "LambdaExpr":
                ls = [g for g in P.lambdas(n) if not g.flag("dep")]
                if ls:
                    out.append((n, [], ls))
            elif k in CALLS:
                sk = self.skip(f, n) is True    # described by third alone
                ts = [] if sk else [g for g in P.targets(n) if not g.flag("dep") and g.kind != "lambda"]
                t = None
                if not ts:
                    t = self.third(f, n)
                    extra = []
                    for a in () if sk else call_args(f, n):
                        a = f.node(a)
                        rec = P.recbyname.get(re.sub(r"<.*", "", clean(f.type(unwrap(f, a) or a))))
                        if rec:
                            rec = rec if isinstance(rec, list) else [rec]
                            for r in rec:
                                vis = any("visitor" in (b.get("n") or b["t"]) for b in r["bases"])
                                for m in r.get("methods", ()):
                                    g = P.funcs.get(m)
                                    if g is not None and not g.flag("dep") and (g.short == "operator()" or vis and g.kind == "method"):
                                        extra.append(g)
                    ts = extra
                if t or ts:
                    out.append((n, [t] if isinstance(t, str) else list(t or ()), ts))
        out = [(n, [self.label(f, n, t) for t in ts], cs) for n, ts, cs in out]
        self.sites[f.id] = out
        return out

    def build(self):
        P = self.P
        fs = [f for f in P.funcs.values() if not f.flag("dep") and (f.d.get("body") or f.d.get("inits"))]
        callers = {}
        for f in fs:
            self.esc[f.id] = {}
            for n, ts, cs in self.own(f):
                for g in cs:
                    callers.setdefault(g.id, set()).add(f.id)
        work = [f.id for f in fs]
        inw = set(work)
        while work:
            i = work.pop()
            inw.discard(i)
            f = P.funcs[i]
            e = self.esc[i]
            ch = False
            for n, ts, cs in self.own(f):
                for t in ts:
                    if t not in e and not self.caught(f, n, t):
                        e[t] = [(f, n)]
                        ch = True
                for g in cs:
                    sk = self.dropped(f, n)
                    for t, path in self.esc.get(g.id, {}).items():
                        if t not in e and t not in sk and not self.caught(f, n, t):
                            e[t] = [(f, n)] + path
                            ch = True
            if ch:
                for c in callers.get(i, ()):
                    if c not in inw:
                        inw.add(c)
                        work.append(c)

    def path(self, p):
        return " -> ".join(f"{short(f.name) if f.kind != 'lambda' else 'lambda'} ({f.loc(n)})" for f, n in p[:8])


class NullArgs:
    """functions that raise NullptrError only because an argument is null, and the calls whose argument provably is not"""

    def __init__(self, P):
        self.P = P
        self.np = {}
        fs = [f for f in P.funcs.values() if not f.flag("dep") and f.params]
        for f in fs:
            for n in f.all("CXXThrowExpr"):
                if n.get("c") and "NullptrError" in f.type(f.node(n["c"][0])):
                    pos = self.guards(f, n)
                    cur = self.np.get(f.id, set())
                    self.np[f.id] = cur | pos if pos else cur | {-1}
        self.np = {k: v for k, v in self.np.items() if -1 not in v}
        ch = True
        while ch:
            ch = False
            for f in fs:
                for n in f.calls():
                    for g in P.targets(n):
                        for i in self.np.get(g.id, ()):
                            a = self.arg(f, n, i)
                            for j, p in enumerate(f.params):
                                if a is not None and a["k"] == "DeclRefExpr" and a.get("d", {}).get("id") == p["id"] and j not in self.np.get(f.id, ()):
                                    self.np.setdefault(f.id, set()).add(j)
                                    ch = True

    def arg(self, f, n, i):
        args = call_args(f, n)
        if i >= len(args):
            return None
        a = unwrap(f, args[i])
        for _ in range(8):
            if a is None:
                return None
            if a["k"] in CALLS and ("pointer_cast" in self.P.key(f, a) or self.P.key(f, a).startswith("move(")) and call_args(f, a):
                a = unwrap(f, call_args(f, a)[0])
            elif a["k"] == "CXXConstructExpr" and len(a.get("c") or ()) == 1 and "_ptr<" in f.type(a):
                a = unwrap(f, a["c"][0])
            else:
                break
        return a

    def guards(self, f, n):
        pos = set()
        try:
            st = self.P.state_at(f, n) or ()
        except Exception:
            st = ()
        for fact in st:
            fact = tuple(fact)
            for i, p in enumerate(f.params):
                if fact[0] in ("true", "eq") and len(fact) > 2 and isinstance(fact[1], str) and fact[1].split("#")[0] == f"v:{p['n']}" and \
                        (fact[0] == "true" and not fact[-1] or fact[0] == "eq"):
                    pos.add(i)
        return pos

    def nonnull(self, f, a):
        if a is None:
            return False
        if a["k"] in CALLS:
            s = short(a.get("fn") or a.get("callee", {}).get("n", "") or self.P.key(f, a).split("(")[0])
            k = self.P.key(f, a)
            return any(k.endswith(x) or ("." + x) in k for x in ("constData()", "data()", "shared_from_this()")) or "make_shared" in k or s == "make_shared"
        if a["k"] == "DeclRefExpr":
            vid = a.get("d", {}).get("id")
            if f.kind == "lambda" and any(p["id"] == vid for p in f.params):
                return True
            for l in f.all("CXXForRangeStmt"):
                if l.get("var") == vid:
                    return True
                for d in l.get("c") or ():
                    d = f.node(d)
                    if d is not None and d["k"] == "DeclStmt" and any(v["id"] == vid for v in d.get("vars", ())):
                        return True
        return a["k"] == "CXXThisExpr"

    def skip(self, f, n):
        # lock() of a weak element that was found not to have expired
        if (n.get("f") or "").endswith("::lock") and call_obj(f, n) is not None:
            k = self.P.key(f, call_obj(f, n))
            if any(x[0] == "expired" and x[1] == k and not x[2] for x in self.P.state_at(f, n) or ()):
                return {"lanelet::NullptrError"}
        ts = [g for g in self.P.targets(n)]
        if not ts or not all(g.id in self.np for g in ts):
            return ()
        return {"lanelet::NullptrError"} if all(self.nonnull(f, self.arg(f, n, i)) for g in ts for i in self.np[g.id]) else ()
