"""Conditional constant propagation with may/must events: what a function does for a given abstract input (finite domains of
flags, relations, element kinds), computed as a forward dataflow over its control flow graph; branches whose condition is not
a known constant are followed both ways and joined."""
from .core import *
from .core import rpo

BOT = "⊥"
TOP = None


class Result:
    __slots__ = ("normal", "may", "must", "ret", "throws", "stopped")

    def __init__(self):
        self.normal, self.may, self.must, self.ret, self.throws, self.stopped = False, frozenset(), None, BOT, set(), False


def join(a, b):
    if a == BOT and isinstance(a, str):
        return b
    if b == BOT and isinstance(b, str):
        return a
    return a if a == b else TOP


class CCP:
    def __init__(self, P, oracle=None, event=None, inscope=None, maxd=6):
        self.P = P
        self.oracle = oracle or (lambda f, n: None)
        self.event = event or (lambda f, n: None)
        self.inscope = inscope or (lambda g: True)
        self.maxd = maxd
        self.memo = {}
        self.stack = []

    # ------------------------------------------------------------ values
    def enumval(self, name):
        e = self.P.enums.get(name.rsplit("::", 1)[0])
        if e:
            for n, v in e["vals"]:
                if n == name.rsplit("::", 1)[1]:
                    return int(v)
        for en, e in self.P.enums.items():
            if en.rsplit("::", 1)[0] == name.rsplit("::", 1)[0]:
                for n, v in e["vals"]:
                    if n == name.rsplit("::", 1)[1]:
                        return int(v)
        return TOP

    def eval(self, f, n, env, d=0):
        P = self.P
        n0 = f.node(n)
        while n0 is not None:
            o = self.oracle(f, n0)
            if o is not None:
                return o
            if n0["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXStaticCastExpr",
                           "CStyleCastExpr", "CXXFunctionalCastExpr") and n0.get("c"):
                n0 = f.node(n0["c"][0])
                continue
            break
        n = unwrap(f, n)
        if n is None or d > 30:
            return TOP
        if n is not n0:
            o = self.oracle(f, n)
            if o is not None:
                return o
        k = n["k"]
        E = lambda x: self.eval(f, x, env, d + 1)
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
            v = n.get("v")
            return int(v) if not isinstance(v, bool) else int(v)
        if k == "DeclRefExpr":
            dd = n.get("d", {})
            if dd.get("k") == "Enum":
                return self.enumval(dd["n"])
            vid = dd.get("id")
            if vid in env:
                return env[vid]
            if dd.get("k") in ("Var", "Parm"):
                h = P._owner(f, vid)
                if h is not None and h is not f and not h.mods.get(vid) and h.vardefs.get(vid) is not None and not P.mod_in_lambdas(h, vid):
                    return self.eval(h, h.vardefs[vid], env, d + 1)
            v = const_int(f, n)
            return v if v is not None else TOP
        if k == "UnaryOperator":
            v = E(n["c"][0])
            if v is TOP:
                return TOP
            return {"!": lambda: int(not v), "-": lambda: -v, "~": lambda: ~v, "+": lambda: v}.get(n["op"], lambda: TOP)()
        if k == "ConditionalOperator":
            c = E(n["c"][0])
            if c is TOP:
                a, b = E(n["c"][1]), E(n["c"][2])
                return a if a == b else TOP
            return E(n["c"][1] if c else n["c"][2])
        if k == "BinaryOperator":
            op = n["op"]
            if op in ("&&", "||"):
                a = E(n["c"][0])
                if a is not TOP and bool(a) == (op == "||"):
                    return int(op == "||")
                b = E(n["c"][1])
                if b is not TOP and bool(b) == (op == "||"):
                    return int(op == "||")
                if a is TOP or b is TOP:
                    return TOP
                return int(bool(b))
            if op == ",":
                return E(n["c"][1])
            if op == "=":
                return E(n["c"][1])
            a, b = E(n["c"][0]), E(n["c"][1])
            if a is TOP or b is TOP:
                if op == "&" and (a == 0 or b == 0):
                    return 0
                return TOP
            return binop(op, a, b)
        if k in CALLS:
            if n.get("op") == "!" and len(n["c"]) == 2:
                v = E(n["c"][1])
                return TOP if v is TOP else int(not v)
            s = short(n.get("f") or "")
            o = call_obj(f, n)
            if o is not None and (s in ("operator bool", "has_value", "is_initialized") or s.startswith("operator ") and not call_args(f, n) and s != "operator="):
                v = E(o)
                if v is not TOP:
                    return v
            ts = [g for g in P.targets(n) if g.cfg and not g.flag("dep")]
            if len(ts) == 1 and self.inscope(ts[0]) and n["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                r = self.call(f, n, ts[0], env)
                if r is not None and r.ret is not TOP and r.ret != BOT:
                    return r.ret
            if n.get("op") in ("==", "!=", "<", ">", "<=", ">=", "&", "|") and len(n["c"]) == 3:
                a, b = E(n["c"][1]), E(n["c"][2])
                if a is not TOP and b is not TOP:
                    return binop(n["op"], a, b)
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.get("c", ())) == 1:
                return E(n["c"][0])
            return TOP
        if k == "InitListExpr" and len(n.get("c") or ()) == 1:
            return E(n["c"][0])
        v = const_int(f, n)
        return v if v is not None else TOP

    # ------------------------------------------------------------ calls
    def call(self, f, n, g, env):
        if len(self.stack) > self.maxd or g.id in [s for s in self.stack]:
            return None
        args = call_args(f, n)
        e2 = {}
        if g.kind == "lambda":
            e2.update(env)
        for p, a in zip(g.params, args):
            v = self.eval(f, a, env, 1)
            if v is not TOP:
                e2[p["id"]] = v
        mk = (g.id, tuple(sorted((str(k), v) for k, v in e2.items())))
        if mk not in self.memo:
            self.stack.append(g.id)
            try:
                self.memo[mk] = self.run(g, e2)
            finally:
                self.stack.pop()
        return self.memo[mk]

    # ------------------------------------------------------------ dataflow
    def run(self, f, env=None, start=None, stop=None):
        """effects of f from block start (entry) until the exit or one of the stop blocks"""
        cfg = f.cfg
        res = Result()
        if not cfg:
            return res
        start = cfg["entry"] if start is None else start
        stop = set(stop or ())
        IN = {start: (dict(env or {}), frozenset(), frozenset())}
        order = {b: i for i, b in enumerate(rpo(cfg))}
        work = [start]
        rets = {}
        thr = {}
        outs = {}
        it = 0
        while work and it < 5000:
            it += 1
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            if b == cfg["exit"]:
                continue
            blk = cfg["blocks"][b]
            e, may, must = dict(IN[b][0]), IN[b][1], IN[b][2]
            dead = False
            ret = None
            for x in blk["e"]:
                n = f.nodes.get(x) if isinstance(x, int) else None
                if n is None:
                    continue
                ev = self.event(f, n)
                if ev is not None:
                    may, must = may | {ev}, must | {ev}
                if n["k"] == "CXXThrowExpr":
                    thr[b] = (may, must)
                    dead = True
                    break
                if n["k"] == "ReturnStmt":
                    ret = self.eval(f, n["c"][0], e) if n.get("c") else TOP
                    rets[b] = ret
                    continue
                r = self.step(f, n, e)
                if r is not None:
                    may = may | r.may
                    if r.normal:
                        must = must | (r.must or frozenset())
                    if r.throws:
                        thr[(b, x)] = (may, must)
                    if not r.normal:
                        dead = True
                        break
            outs[b] = (may, must)
            if dead or blk.get("noret"):
                continue
            succ = [(i, s) for i, s in enumerate(blk["s"]) if s is not None]
            if len(blk["s"]) == 2 and "cond" in blk and blk.get("t") not in ("SwitchStmt", "CXXTryStmt"):
                cn = f.nodes.get(blk["cond"])
                if cn is not None:
                    v = self.eval(f, self.P._cond(f, blk, cn), e)
                    if v is not TOP:
                        succ = [(i, s) for i, s in succ if i == (0 if v else 1)]
            elif blk.get("t") == "SwitchStmt":
                cn = f.nodes.get(blk.get("cond", -1))
                v = self.eval(f, cn, e) if cn is not None else TOP
                if v is not TOP:
                    hit, dflt = [], []
                    for i, s in succ:
                        vals = self.labels(f, cfg["blocks"][s], e)
                        if vals is None:
                            dflt.append((i, s))
                        elif v in vals:
                            hit.append((i, s))
                    succ = hit or dflt
            for i, s in succ:
                if s in stop:
                    self.leave(res, may, must)
                    res.stopped = True
                    continue
                if s == cfg["exit"]:
                    self.leave(res, may, must)
                    res.normal = True
                    if b in rets:
                        res.ret = join(res.ret, rets[b])
                    continue
                old = IN.get(s)
                if old is None:
                    IN[s] = (dict(e), may, must)
                    work.append(s)
                else:
                    ne = {k: v for k, v in old[0].items() if e.get(k, BOT) == v}
                    nmay, nmust = old[1] | may, old[2] & must
                    if ne != old[0] or nmay != old[1] or nmust != old[2]:
                        IN[s] = (ne, nmay, nmust)
                        if s not in work:
                            work.append(s)
        for may, must in thr.values():
            res.throws.add("throw")
            res.may = res.may | may
        if not (res.normal or res.stopped) and res.must is None:
            res.must = frozenset()
        return res

    def leave(self, res, may, must):
        res.may = res.may | may
        res.must = must if res.must is None else res.must & must

    def labels(self, f, blk, env):
        li = blk.get("labi", -1)
        n = f.nodes.get(li)
        if n is None:
            return None
        vals = []
        while n is not None and n["k"] in ("CaseStmt", "DefaultStmt"):
            if n["k"] == "DefaultStmt":
                return None
            vals.append(self.eval(f, n["case"], env))
            sub = [f.node(x) for x in kids(n)]
            n = sub[0] if sub and sub[0] is not None and sub[0]["k"] in ("CaseStmt", "DefaultStmt") else None
        return vals

    def step(self, f, n, env):
        k = n["k"]
        if k == "DeclStmt":
            for v in n.get("vars", ()):
                val = self.eval(f, v["init"], env) if v.get("init") is not None else TOP
                if val is TOP:
                    env.pop(v["id"], None)
                else:
                    env[v["id"]] = val
            return None
        if k == "BinaryOperator" and n.get("op") == "=" or k == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["c"]) == 3:
            l, r = (n["c"][0], n["c"][1]) if k == "BinaryOperator" else (n["c"][1], n["c"][2])
            u = unwrap(f, l)
            if u["k"] == "DeclRefExpr":
                val = self.eval(f, r, env)
                if val is TOP:
                    env.pop(u["d"].get("id"), None)
                else:
                    env[u["d"]["id"]] = val
                return None
        if k == "CompoundAssignOperator" or k == "CXXOperatorCallExpr" and n.get("op") in ("|=", "&="):
            l, r = (n["c"][0], n["c"][1]) if k == "CompoundAssignOperator" else (n["c"][1], n["c"][2])
            u = unwrap(f, l)
            if u["k"] == "DeclRefExpr":
                a, b = self.eval(f, l, env), self.eval(f, r, env)
                op = n["op"][:-1]
                v = TOP
                if a is not TOP and b is not TOP:
                    v = binop(op, a, b)
                elif op == "|" and 1 in (a, b) and "bool" in f.type(u):
                    v = 1
                elif op == "&" and 0 in (a, b):
                    v = 0
                if v is TOP:
                    env.pop(u["d"].get("id"), None)
                else:
                    env[u["d"]["id"]] = v
                return None
        if k == "UnaryOperator" and n.get("op") not in ("++", "--"):
            return None
        res = None
        if k in CALLS:
            ts = [g for g in self.P.targets(n) if g.cfg and not g.flag("dep") and self.inscope(g)]
            if ts and len(ts) <= 3:
                rs = [self.call(f, n, g, env) for g in ts]
                if all(r is not None for r in rs):
                    res = Result()
                    for r in rs:
                        res.may = res.may | r.may
                        res.normal = res.normal or r.normal
                        res.throws |= r.throws
                        if r.normal:
                            res.must = r.must if res.must is None else res.must & r.must
            # algorithms calling a lambda: may happen any number of times
            else:
                for a in call_args(f, n):
                    ua = unwrap(f, a)
                    ls = self.P.lambdas(ua) if ua is not None and ua["k"] == "LambdaExpr" else []
                    for g in ls:
                        if g.cfg and not g.flag("dep") and self.inscope(g):
                            self.stack.append(g.id)
                            try:
                                r = self.run(g, dict(env))
                            finally:
                                self.stack.pop()
                            if res is None:
                                res = Result()
                                res.normal, res.must = True, frozenset()
                            res.may = res.may | r.may
                            res.throws |= r.throws
        for t in modified_targets(f, n):
            r = root_var(f, t)
            if r is not None:
                env.pop(r, None)
            ut = unwrap(f, t)
            if ut is not None and ut["k"] in CALLS:
                for x in walk(ut):
                    x = f.node(x)
                    if x["k"] == "DeclRefExpr":
                        env.pop(x.get("d", {}).get("id"), None)
        return res


def binop(op, a, b):
    try:
        return {"==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b,
                "/": lambda: a // b if b else TOP, "%": lambda: a % b if b else TOP}[op]()
    except (KeyError, TypeError):
        return TOP
