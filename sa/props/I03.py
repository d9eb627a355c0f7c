"""I03: everything that is skipped or fails while loading or writing a map is reported, and reports reach the caller."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from ..feeds import Feeds, last
from .V02 import wk
from .C03 import reaches

MUT = {"emplace", "emplace_back", "push_back", "insert", "try_emplace", "insert_or_assign", "append_child", "append_attribute", "push_front", "emplace_front",
       "emplace_hint", "append", "add", "setCenterline", "addRegulatoryElement", "setLeftBound", "setRightBound"}
APP = {"emplace_back", "push_back", "insert", "append"}
VS = re.compile(r"std::vector<std::(__cxx11::)?basic_string<char>>|std::vector<std::string>|^(lanelet::)?(\w+::)*(ErrorMessages|Errors)\b|vector<(class )?std::basic_string<char>")


class IO:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.F = Feeds(P, inline=lambda g: g.loc().startswith("lanelet2_io/") and not g.flag("dep"))
        self.fs = [f for f in P.lib() if f.loc().startswith("lanelet2_io/") and f.cfg and not f.flag("dep")]
        self.io = {f.id for f in self.fs}
        self.rep, self.eff = {}, {}
        # fields that hold error lists
        self.efields = {}
        for q, r in P.recbyname.items():
            for r in (r if isinstance(r, list) else [r]):
                if r.get("file", "x") and "lanelet2_io" in str(r.get("loc", r.get("file", ""))) or True:
                    for x in r.get("fields", ()):
                        t = r["_types"][x["t"]] if isinstance(x["t"], int) else x["t"]
                        if self.evec(t) and q.startswith("lanelet"):
                            self.efields.setdefault(q, set()).add(x.get("q") or q + "::" + last(x["n"]))

    def evec(self, t):
        return bool(VS.search(t.replace("const ", "").strip())) and "map<" not in t

    def targets(self, n):
        return [h for h in self.P.targets(n) if h.id in self.io]

    def eclass(self, f):
        """class with an error list that f (or the function around a lambda f) belongs to"""
        for q in self.efields:
            if (f.cls or "").startswith(q) or f.name.startswith(q + "::") or (f.d.get("parent") or "").startswith(q + "::"):
                return q
        return None

    # ------------------------------------------------------------ error variables
    def evar(self, f, n):
        """('v', id) / ('f', name) of an error list denoted by n"""
        n = unwrap(f, n)
        for _ in range(6):
            if n["k"] == "UnaryOperator" and n.get("op") in ("*", "&"):
                n = unwrap(f, n["c"][0])
                continue
            if n["k"] in CALLS and last(n.get("f", "")) in ("move", "forward") and call_args(f, n):
                n = unwrap(f, call_args(f, n)[0])
                continue
            break
        if n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") in ("Var", "Parm") and self.evec(f.type(n).rstrip("*& ")):
            return "v", n["d"]["id"]
        if n["k"] == "MemberExpr" and self.evec(f.type(n)):
            return "f", n["m"]
        return None

    def appended(self, f, n):
        """error list that node n appends to"""
        if n["k"] in CALLS and last(n.get("f", "")) in APP and call_obj(f, n) is not None:
            return self.evar(f, call_obj(f, n))
        return None

    def copied(self, f, n):
        """(destination, sources) of a whole list moved into another error list"""
        if n["k"] in ("CXXOperatorCallExpr", "BinaryOperator") and n.get("op") == "=":
            l, r = (n["c"][1], n["c"][2]) if n["k"] == "CXXOperatorCallExpr" else n["c"][:2]
            d = self.evar(f, l)
            if d:
                return d, self.mentions(f, r)
        if n["k"] in CALLS and last(n.get("f", "")) in ("insert", "append") and call_obj(f, n) is not None:
            d = self.evar(f, call_obj(f, n))
            if d:
                s = set()
                for a in call_args(f, n):
                    s |= self.mentions(f, a)
                return d, s - {d}
        if n["k"] in CALLS and last(n.get("f", "")) in ("copy", "move") and len(call_args(f, n)) == 3:
            a = call_args(f, n)
            m = self.mentions(f, a[2])
            if m:
                return next(iter(m)), self.mentions(f, a[0])
        return None

    def mentions(self, f, n):
        out = set()
        for x in wk(f, f.node(n)):
            if x["k"] in ("DeclRefExpr", "MemberExpr"):
                e = self.evar(f, x)
                if e:
                    out.add(e)
        return out

    # ------------------------------------------------------------ reporting and effects
    def reports(self, g, seen=()):
        """does g append to an error list (or call something that does)"""
        if g.id in self.rep:
            return self.rep[g.id]
        if g.id in seen:
            return False
        r = False
        for n in g.nodes.values():
            if self.appended(g, n) or n["k"] in CALLS and any(self.reports(h, seen + (g.id,)) for h in self.targets(n)):
                r = True
                break
        if not seen or r:
            self.rep[g.id] = r
        return r

    def surely(self, g, seen=()):
        """does g report on every path"""
        if g.id in seen or not self.reports(g):
            return False
        return escape(self.P, g, None, lambda n: self.isreport(g, n, seen + (g.id,))) is None

    def isreport(self, f, n, seen=()):
        if n["k"] == "CXXThrowExpr":
            return True
        if self.appended(f, n):
            return True
        return n["k"] in CALLS and any(self.surely(h, seen) for h in self.targets(n))

    def effect(self, f, n, seen=()):
        """does n store something outside of the local variables, or report"""
        if self.isreport(f, n):
            return True
        if n["k"] in CALLS:
            nm = last(n.get("f", ""))
            if nm in MUT and call_obj(f, n) is not None:
                return not seen or not self.local(f, call_obj(f, n)) or "pugi::" in f.type(unwrap(f, call_obj(f, n)))
            if n.get("op") == "=" and not self.local(f, n["c"][1]):
                return True
            for h in list(self.targets(n)) + [h for h in self.P.lambdas(n)]:
                if self.haseffect(h, seen):
                    return True
            return False
        if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op", "").endswith("=") and n.get("op") not in ("==", "!=", "<=", ">="):
            return not self.local(f, n["c"][0])
        return False

    def haseffect(self, g, seen=()):
        if g.id in self.eff:
            return self.eff[g.id]
        if g.id in seen or not g.cfg:
            return False
        r = any(self.effect(g, n, seen + (g.id,)) for n in g.nodes.values())
        if r or not seen:
            self.eff[g.id] = r
        return r

    def local(self, f, n):
        n = unwrap(f, n)
        for _ in range(8):
            if n["k"] in CALLS and n.get("op") == "[]":
                n = unwrap(f, n["c"][1])
            elif n["k"] in CALLS and last(n.get("f", "")) in ("back", "front", "at") and call_obj(f, n) is not None:
                n = unwrap(f, call_obj(f, n))
            elif n["k"] == "MemberExpr" and not n.get("arrow") and n.get("c"):
                n = unwrap(f, n["c"][0])
            else:
                break
        if n["k"] != "DeclRefExpr" or n.get("d", {}).get("k") not in ("Var", "Parm"):
            return False
        d = self.decls(f).get(n["d"]["id"])
        return d is not None and not d.rstrip().endswith(("&", "*"))

    def decls(self, f):
        """declared types of the variables and parameters of f"""
        if "_decls" not in f.__dict__:
            d = {p["id"]: f.ptype(p) for p in f.params}
            for n in f.all("DeclStmt"):
                for v in n.get("vars", ()):
                    d[v["id"]] = f.types[v["t"]] if isinstance(v.get("t"), int) and v["t"] >= 0 else ""
            f.__dict__["_decls"] = d
        return f.__dict__["_decls"]

    # ------------------------------------------------------------ allowed reasons to leave something out
    def kinds(self, f, facts, strict):
        """the edge says: not an element of the kind this code is about"""
        for y in facts:
            if y[0] == "true":
                m = re.match(r"^(?:this\.)?([A-Za-z_]\w*)\((.*)\)$", y[1])
                if m and self.kindtest(m.group(1)):
                    return True
            if y[0] == "eq" and ".first" in y[1] and "end()" not in y[1] and not y[2] and ("v:role" in y[1] or "Name" in y[1]):
                return True
            if y[0] == "eq" and not strict and y[2] and "end()" not in y[1] and "g:" in y[1]:
                return True
            if y[2] and (y[0] == "isend" and re.match(r"^v:__begin\d*#[\d:]+$", y[1]) or y[0] == "eq" and re.match(r"^v:__begin\d*#[\d:]+==(v:|this\.|\*)?[\w.#:]*end\(\)$", y[1])):
                return True
        return False

    def kindtest(self, name):
        """bool function over an element's own tags that reports nothing"""
        gs = [g for g in self.fs if g.short == name and g.ret() == "bool"]
        return bool(gs) and all(not self.reports(g) and not self.haseffect(g) and len(g.params) == 1 and
                                any(x.get("f", "").split("::")[-1] in ("attribute", "find", "at", "count") for x in g.calls()) and
                                self.strings(g) for g in gs)

    def strings(self, g):
        for n in g.nodes.values():
            if n["k"] in CALLS and n.get("op") in ("==", "!=") and any("string" in g.type(g.node(x)) or "char" in g.type(g.node(x)) for x in n["c"][1:]):
                return True
        return False


def run(c):
    P = c.program("core", "io")
    I = IO(c, P)
    F = I.F
    c.rule("handlers", "every exception handler of the loaders and writers reports or throws", 8)
    c.rule("skip", "an element, member or parameter that is left out is reported, unless it is of another kind", 15)
    c.rule("dummy", "a function that gives up and returns a placeholder has reported why", 4)
    c.rule("discard", "what was collected is only thrown away after a report", 2)
    c.rule("carry", "collected reports are handed to the list of the caller after everything that can report", 3)
    c.rule("keep", "a list that may hold reports is not overwritten", 4)
    c.rule("deliver", "reports reach the list of the caller, or are thrown if there is none", 8)
    c.rule("status", "the result of reading or writing a file is checked", 4)
    cls = sorted(I.efields)
    if not [q for q in cls if any(I.eclass(f) == q for f in I.fs)]:
        raise AnalysisBroken("no class with an error list found in lanelet2_io")

    # ---------------------------------------------------------------- handlers
    for f in I.fs:
        B = f.cfg["blocks"]
        for h in f.all("CXXCatchStmt"):
            sub = subtree_ids(h)
            hb = [b for b, blk in B.items() if blk.get("lab") == "CXXCatchStmt" and blk.get("labi") == h["i"]]
            ok = bool(hb) and escape(P, f, hb[0], lambda n: I.isreport(f, n)) is None
            c.ob("handlers", ok, f.loc(h), "%s:%s" % (f.name, h.get("x", "")), "%s: the exception handler can be left without a report" % f.name, {"function": f.name})

    # ---------------------------------------------------------------- skips
    kind = lambda f, strict: lambda facts: I.kinds(f, facts, strict)
    scope = [f for f in I.fs if f.loc().split(":")[0].endswith(".cpp") and (f.cls or f.kind == "lambda" or any(I.evec(f.ptype(p)) for p in f.params) or f.short == "tags")]
    def infeasible(f, neg):
        """negative string comparisons that cannot all hold: every value of a virtual accessor is excluded"""
        for k, vals in neg.items():
            m = re.match(r"^.*\b(\w+)\(\)$", k)
            if not m:
                continue
            ret = set()
            gs = [g for g in P.funcs.values() if g.short == m.group(1) and g.flag("virtual") is not None and g.loc().startswith("lanelet2_io/") and not g.params and "string" in g.ret() and g.cfg]
            for g in gs:
                for n in g.all("ReturnStmt"):
                    ks = [strval(P, x["d"]["n"]) for x in wk(g, n) if x["k"] == "DeclRefExpr" and x.get("d", {}).get("k") == "Global"]
                    ks += [x.get("v") for x in wk(g, n) if x["k"] == "StringLiteral"]
                    ret |= set(ks) if ks else {None}
            if gs and None not in ret and ret <= {strval(P, v) for v in vals}:
                return True
        return False

    def pure(f, b, goals, stop):
        """nothing is stored or reported from block b on until a goal"""
        B = f.cfg["blocks"]
        seen, st = {b}, [b]
        while st:
            x = st.pop()
            if x in goals:
                continue
            if any(isinstance(e, int) and e in f.nodes and stop(f.nodes[e]) for e in B[x]["e"]):
                return False
            for s in B[x]["s"]:
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append(s)
        return True

    def skip_path(f, b0, goals, strict, stop):
        """path of blocks from b0 to a goal without an effect and without an edge that says 'of another kind'"""
        B = f.cfg["blocks"]
        count = 0
        st = [(b0, (b0,), {})]
        while st:
            b, path, neg = st.pop()
            count += 1
            if count > 4000:
                return None
            if len(path) > 1 and b in goals:
                if not infeasible(f, neg):
                    return path
                continue
            if any(isinstance(e, int) and stop(f.nodes[e]) for e in B[b]["e"] if e in f.nodes):
                continue
            if throws(f, B[b]):
                continue
            for si, s in enumerate(B[b]["s"]):
                if s is None or (s in path and s not in goals):
                    continue
                ef = edge_facts(P, f, b, si)
                if I.kinds(f, ef, strict) and pure(f, s, goals, stop):
                    continue
                ng = neg
                for y in ef:
                    if y[0] == "eq" and y[2] is False and "==" in y[1]:
                        a, _, d = y[1].rpartition("==")
                        for k, v in ((a, d), (d, a)):
                            if v.startswith("g:") or v.startswith('"'):
                                ng = dict(ng)
                                ng[k] = ng.get(k, ()) + (v[2:] if v.startswith("g:") else v,)
                st.append((s, path + (s,), ng))
        return None

    for f in scope:
        E = I.eclass(f)
        strict = E is not None
        for lp in loops(f):
            b = body_of(f, lp)
            h, e = loop_head(P, f, lp), loop_body_entry(P, f, lp)
            if b is None or h is None or e is None:
                continue
            ids = subtree_ids(b)
            if not any(I.effect(f, f.nodes[i]) for i in ids if i in f.nodes):
                continue
            if any(I.appended(f, f.nodes[i]) for i in ids if i in f.nodes) and E is None:
                continue
            # blocks of the increment lead back to the head
            p = skip_path(f, e, {h}, strict, lambda n: I.effect(f, n))
            ln = lines(f, p, h) if p else ""
            c.ob("skip", p is None, f.loc(lp), "%s:loop:%s" % (f.name, P.key(f, f.nodes[f.cfg["blocks"][h]["cond"]])[:60] if "cond" in f.cfg["blocks"][h] else ""),
                 "%s: an element can be left out without a report%s" % (f.name, ln), {"function": f.name, "loop": f.loc(lp)})
            for x in early_exits(f, lp):
                w = P.where(f, x) if x["k"] == "ReturnStmt" else None
                bad = True
                if w is not None:
                    bad = reach_unreported(P, I, f, x)
                else:
                    bb = [q for q, blk in f.cfg["blocks"].items() if blk.get("ti") == x["i"]]
                    bad = not bb or escape(P, f, e, lambda n: I.isreport(f, n), None, set(bb)) is not None
                c.ob("skip", not bad, f.loc(x), "%s:exit:%s" % (f.name, x["k"]), "%s: the loop is left before all elements were seen, without a report" % f.name, {"function": f.name})
        if E is None and f.kind != "lambda":
            continue
        if f.kind == "lambda" and not I.eclass(f):
            continue
        if f.kind in ("ctor", "dtor") or f.ret() != "void" or not I.haseffect(f) or any(I.evec(f.ptype(p)) for p in f.params):
            continue
        heads = set()
        for lp in loops(f):
            b = body_of(f, lp)
            if b is not None and any(I.effect(f, f.nodes[i]) for i in subtree_ids(b) if i in f.nodes):
                heads.add(loop_head(P, f, lp))
        hn = {i for b in heads if b is not None for i in [f.cfg["blocks"][b].get("cond")] if i is not None}
        p = skip_path(f, f.cfg["entry"], {f.cfg["exit"]}, strict, lambda n: n["i"] in hn or I.effect(f, n))
        c.ob("skip", p is None, f.loc(), "%s:%s:void" % (f.name, ",".join(f.ptype(q)[-30:] for q in f.params)), "%s can return without having stored or reported anything%s" % (f.name, lines(f, p, None) if p else ""),
             {"function": f.name})

    # ---------------------------------------------------------------- placeholders
    def dummy(f, n, d=0):
        """is the value a placeholder: default constructed, or made of nothing but an id"""
        n = unwrap(f, n)
        for _ in range(4):
            if n["k"] in ("CXXFunctionalCastExpr", "CXXStaticCastExpr") and n.get("c"):
                n = unwrap(f, n["c"][0])
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            a = [x for x in n.get("c", ()) if x is not None and f.node(x)["k"] != "CXXDefaultArgExpr"]
            if not a:
                return True
            if len(a) == 1 and n["k"] != "InitListExpr":
                u = unwrap(f, a[0])
                if I.P and re.sub(r"^const ", "", f.type(u)) in ("long", "lanelet::Id", "Id", "int64_t"):
                    return True
                return dummy(f, u, d)
            return False
        if n["k"] in CALLS and d < 3:
            a = call_args(f, n)
            if len(a) == 1 and re.sub(r"^const ", "", f.type(unwrap(f, a[0]))) in ("long", "lanelet::Id", "Id", "int64_t"):
                hs = I.targets(n)
                return bool(hs) and call_obj(f, n) is None and all(not any(x["k"] in CALLS and last(x.get("f", "")) in ("at", "find", "get") for x in h.calls()) for h in hs)
        return n["k"] == "CXXNullPtrLiteralExpr"

    for f in I.fs:
        E = I.eclass(f)
        if E is None or f.ret() in ("void", "bool") or f.kind in ("ctor", "dtor") or any(I.evec(f.ptype(p)) for p in f.params):
            continue
        for n in f.all("ReturnStmt"):
            if not n.get("c") or not dummy(f, n["c"][0]):
                continue
            inh = [h for h in f.all("CXXCatchStmt") if n["i"] in subtree_ids(h)]
            if inh:
                hb = [b for b, blk in f.cfg["blocks"].items() if blk.get("lab") == "CXXCatchStmt" and blk.get("labi") == inh[0]["i"]]
                ok = bool(hb) and reach_from(P, f, hb[0], n, lambda x: I.isreport(f, x)) is None
            else:
                ok = not reach_unreported(P, I, f, n)
            c.ob("dummy", ok, f.loc(n), "%s:%s" % (f.name, I.P.key(f, unwrap(f, n["c"][0]))[:60]), "%s gives up at line %d without a report" % (f.name, n["l"]), {"function": f.name})

    # ---------------------------------------------------------------- discards
    for f in I.fs:
        if I.eclass(f) is None or f.ret() == "void" or f.kind in ("ctor", "dtor"):
            continue
        outs = {unwrap(f, n["c"][0]).get("d", {}).get("id") for n in f.all("ReturnStmt") if n.get("c")} - {None}
        for n in f.nodes.values():
            v = None
            if n["k"] in CALLS and last(n.get("f", "")) in ("pop_back", "erase", "clear", "pop_front") and call_obj(f, n) is not None:
                o = unwrap(f, call_obj(f, n))
                v = o.get("d", {}).get("id") if o["k"] == "DeclRefExpr" else None
            elif n["k"] in CALLS and n.get("op") == "=" and dummy(f, n["c"][2]):
                o = unwrap(f, n["c"][1])
                if o["k"] in CALLS and last(o.get("f", "")) in ("back", "front") and call_obj(f, o) is not None:
                    o = unwrap(f, call_obj(f, o))
                    v = o.get("d", {}).get("id") if o["k"] == "DeclRefExpr" else None
            if v is None or v not in outs:
                continue
            key = "v:" + v
            empty = lambda facts, key=key: any(y[0] in ("empty",) and y[2] is True and y[1].startswith(key) for y in facts)
            st = P.state_at(f, n) or set()
            ok = empty(st) or reach_from(P, f, f.cfg["entry"], n, lambda x: I.isreport(f, x), empty, True) is None
            c.ob("discard", ok, f.loc(n), "%s:%s" % (f.name, last(n.get("f", "")) or "="), "%s throws away collected elements at line %d without a report" % (f.name, n["l"]), {"function": f.name})

    # ---------------------------------------------------------------- overwriting
    def appends(g, j, seen=()):
        """may g add to the error list that is its parameter j"""
        if (g.id, j, "a") in memo:
            return memo[(g.id, j, "a")]
        if (g.id, j) in seen or j >= len(g.params):
            return False
        me = ("v", g.params[j]["id"])
        r = False
        for n in g.nodes.values():
            if I.appended(g, n) == me or (I.copied(g, n) or (None,))[0] == me:
                r = True
            elif n["k"] in CALLS:
                for k, a in enumerate(call_args(g, n)):
                    if I.evar(g, a) == me and any(appends(h, k, seen + ((g.id, j),)) for h in all_targets(n)):
                        r = True
        memo[(g.id, j, "a")] = r
        return r

    memo = {}

    def all_targets(n):
        hs = list(I.targets(n))
        if n.get("fvirt") or n.get("fid") in P.funcs and P.funcs[n["fid"]].flag("virtual"):
            hs += [g for g in I.fs if g.short == last(n.get("f", "")) and g not in hs and len(g.params) == len(call_args_of(P, n))]
        return hs

    def call_args_of(P_, n):
        return [x for x in n.get("c", ())][1:]

    def overwrites(g, j, seen=()):
        """may g replace what the error list that is its parameter j held before"""
        if (g.id, j, "o") in memo:
            return memo[(g.id, j, "o")]
        if (g.id, j) in seen or j >= len(g.params):
            return None
        me = ("v", g.params[j]["id"])
        r = None
        for n in g.nodes.values():
            if kills(g, n, me, seen + ((g.id, j),)):
                r = n
        memo[(g.id, j, "o")] = r
        return r

    def kills(g, n, me, seen=()):
        if n["k"] in CALLS and last(n.get("f", "")) in ("clear", "assign", "resize", "erase", "pop_back") and call_obj(g, n) is not None and I.evar(g, call_obj(g, n)) == me:
            return True
        if n["k"] in CALLS and last(n.get("f", "")) == "swap" and call_obj(g, n) is not None and I.evar(g, call_obj(g, n)) == me:
            return True
        cp = I.copied(g, n)
        if cp and n.get("op") == "=" and cp[0] == me and me not in cp[1]:
            l = g.node(n["c"][1] if n["k"] == "CXXOperatorCallExpr" else n["c"][0])
            # errors = T{}: plain pointer assignment does not touch the list
            return not g.type(unwrap(g, l)).rstrip().endswith("*")
        if n["k"] in CALLS:
            for k, a in enumerate(call_args(g, n)):
                if I.evar(g, a) == me and any(overwrites(h, k, seen) is not None for h in I.targets(n)):
                    return True
        return False

    def fills(g, n, me):
        if I.appended(g, n) == me:
            return True
        cp = I.copied(g, n)
        if cp and cp[0] == me and cp[1] - {me}:
            return True
        return n["k"] in CALLS and any(I.evar(g, a) == me and any(appends(h, k) for h in all_targets(n)) for k, a in enumerate(call_args(g, n)))

    def uses(g, n, me):
        """reads the list as a whole"""
        if n["k"] in CALLS and not fills(g, n, me) and not kills(g, n, me):
            if last(n.get("f", "")) in ("empty", "size", "clear", "reserve", "operator*", "operator->"):
                return False
            return any(I.evar(g, a) == me or me in I.mentions(g, a) for a in call_args(g, n))
        if n["k"] == "ReturnStmt" and n.get("c"):
            return me in I.mentions(g, n["c"][0])
        cp = I.copied(g, n)
        return bool(cp) and me in cp[1]

    nkeep = 0
    for f in I.fs:
        vs = {e for n in f.nodes.values() for e in [I.evar(f, n) if n["k"] in ("DeclRefExpr", "MemberExpr") else None] if e}
        for me in sorted(vs):
            ks = [n for n in f.nodes.values() if kills(f, n, me)]
            fl = [n for n in f.nodes.values() if fills(f, n, me)]
            for k in ks:
                nkeep += 1
                hit = next((x for x in fl if x["i"] != k["i"] and P.where(f, x) and x["i"] not in subtree_ids(k) and
                            reach_from(P, f, None, k, lambda y: uses(f, y, me), start=x) is not None), None)
                c.ob("keep", hit is None, f.loc(k), "%s:%s" % (f.name, me[1].split("#")[0]), "%s: what line %s reported is overwritten at line %d" %
                     (f.name, hit["l"] if hit else "", k["l"]), {"function": f.name, "list": me[1].split("#")[0]})
            # a list of this function that was filled is used
            par = {"v:" + p["id"] for p in f.params}
            isp = me[0] == "v" and me[1] in {p["id"] for p in f.params}
            if me[0] == "v" and not isp:
                for x in fl:
                    if not P.where(f, x):
                        continue
                    nkeep += 1
                    p = escape(P, f, x, lambda y: uses(f, y, me) or any(uses(f, z, me) for z in wk(f, y) if z["k"] in CALLS))
                    inuse = any(x["i"] in subtree_ids(y) and uses(f, y, me) for y in f.nodes.values())
                    c.ob("keep", p is None or inuse, f.loc(x), "%s:%s:used" % (f.name, me[1].split("#")[0]), "%s: reports collected at line %d are dropped" % (f.name, x["l"]), {"function": f.name})

    # ---------------------------------------------------------------- carrying
    def carries(g, q):
        """nodes of g that move the error field of an object of class q (or of this) into a parameter"""
        out = []
        ps = {("v", p["id"]) for p in g.params}
        for n in g.nodes.values():
            cp = I.copied(g, n)
            if cp and cp[0] in ps and any(s[0] == "f" and s[1] in I.efields[q] for s in cp[1]):
                out.append(n)
            elif n["k"] in CALLS and I.appended(g, n) in ps:
                lp = [l for l in loops(g) if n["i"] in subtree_ids(l)]
                if lp and any(s[0] == "f" and s[1] in I.efields[q] for l in lp for s in I.mentions(g, l) | range_mentions(g, l)):
                    out += [l for l in lp[:1]]
            elif n["k"] in CALLS and any(I.evar(g, a) in ps for a in call_args(g, n)):
                for h in I.targets(n):
                    if h.cls == q and h.id != g.id and carries(h, q):
                        out.append(n)
        return out

    def range_mentions(g, l):
        out = set()
        for x in wk(g, l):
            for v in x.get("vars", ()) if x["k"] == "DeclStmt" else ():
                if isinstance(v.get("init"), dict):
                    out |= I.mentions(g, v["init"])
        return out

    for q in cls:
        ms = [f for f in I.fs if I.eclass(f) == q]
        if not any(I.reports(m) for m in ms):
            continue
        entry = [(f, carries(f, q)) for f in I.fs if any(I.evec(f.ptype(p)) and not f.ptype(p).startswith("const") for p in f.params)]
        entry = [(f, cs) for f, cs in entry if cs]
        c.ob("carry", bool(entry), ms[0].loc(), q, "the reports collected by %s are handed to nobody" % q, {"class": q})
        for f, cs in entry:
            ids = {i for n in cs for i in ([n["i"]] if n["k"] in CALLS or n["k"] == "BinaryOperator" else [loop_node(P, f, n)])}
            field = I.efields[q]
            nonull = lambda facts: any((y[0] in ("true",) and y[2] is False and y[1] in {"v:" + p["id"] for p in f.params}) or
                                       (y[0] == "eq" and y[2] is True and "null" in y[1]) or
                                       (y[0] == "empty" and y[2] is True and any(y[1].endswith(last(x)) for x in field)) for y in facts)
            if f.cls == q and not f.flag("static"):
                p = escape(P, f, None, lambda n: n["i"] in ids, nonull)
                c.ob("carry", p is None, f.loc(), f.name, "%s does not hand on the reports on every path%s" % (f.name, lines(f, p, None) if p else ""), {"function": f.name})
                ee = [x for n in cs if n["k"] not in CALLS for x in early_exits(f, n)]
                c.ob("carry", not ee, f.loc(), f.name + ":all", "%s hands on only some of the reports" % f.name, {"function": f.name})
                continue
            calls = [n for n in f.calls() if any(I.eclass(h) == q and I.reports(h) and n["i"] not in ids for h in I.targets(n)) and P.where(f, n)]
            direct = [n for n in cs if not (n["k"] in CALLS and any(h.cls != q or h.flag("static") for h in I.targets(n)))]
            if direct:
                c.ob("carry", bool(calls), f.loc(), f.name + ":calls", "%s calls nothing that reports" % f.name, {"function": f.name})
            for n in calls:
                p = escape(P, f, n, lambda x: x["i"] in ids, nonull)
                c.ob("carry", p is None, f.loc(n), "%s:%s" % (f.name, last(n.get("f", ""))), "%s: what %s reports is not handed to the caller" % (f.name, last(n.get("f", ""))),
                     {"function": f.name, "call": last(n.get("f", ""))})

    # ---------------------------------------------------------------- delivery
    opt = [f for f in I.fs if any(f.ptype(p).rstrip().endswith("*") and I.evec(f.ptype(p).rstrip("* ")) for p in f.params) and f.kind in (None, "func", "method")]
    if len(opt) < 6:
        raise AnalysisBroken("operations with an optional error list not found")
    for f in opt:
        ps = [p for p in f.params if f.ptype(p).rstrip().endswith("*") and I.evec(f.ptype(p).rstrip("* "))]
        pk = "v:" + ps[0]["id"]
        me = ("v", ps[0]["id"])
        isnull = lambda facts: any(y[0] == "true" and y[1] in (pk,) and y[2] is False or y[0] == "eq" and pk in y[1] and "null" in y[1] and y[2] is True for y in facts)
        nonnull = lambda facts: any(y[0] == "true" and y[1] in (pk,) and y[2] is True or y[0] == "eq" and pk in y[1] and "null" in y[1] and y[2] is False for y in facts)
        if I.eclass(f) is not None:
            continue
        src = [p for p in f.params if p is not ps[0] and I.evec(f.ptype(p))]
        label = "%s(%s)" % (f.name, ",".join(f.ptype(p)[-24:] for p in f.params))
        if src:
            s = ("v", src[0]["id"])
            sk = "v:" + src[0]["id"]
            noerr = lambda facts: any(y[0] == "empty" and y[2] is True and y[1] == sk for y in facts)
            p = escape(P, f, None, lambda n: (lambda cp: cp and cp[0] == me and s in cp[1])(I.copied(f, n)) or n["k"] == "CXXThrowExpr", lambda facts: isnull(facts) or noerr(facts))
            c.ob("deliver", p is None, f.loc(), label + ":list", "%s does not fill the caller's list" % f.name, {"function": f.name})
            p = escape(P, f, None, lambda n: n["k"] == "CXXThrowExpr" or n["k"] in CALLS and any(g.d.get("noret") for g in I.targets(n)), lambda facts: nonnull(facts) or noerr(facts))
            c.ob("deliver", p is None, f.loc(), label + ":throw", "%s drops reports if there is no list" % f.name, {"function": f.name})
            th = [n for n in f.all("CXXThrowExpr")]
            c.ob("deliver", bool(th) and all(s in I.mentions(f, n) for n in th), f.loc(), label + ":content", "%s throws something else than the reports" % f.name, {"function": f.name})
            continue
        handed = lambda n: n["k"] in CALLS and any(I.evar(f, a) == me for a in call_args(f, n)) and any(any(I.evec(h.ptype(p).rstrip("* ")) for p in h.params) for h in I.targets(n))
        p = escape(P, f, None, handed)
        c.ob("deliver", p is None, f.loc(), label, "%s does not hand on the caller's error list%s" % (f.name, lines(f, p, None) if p else ""), {"function": f.name})

    for f in I.fs:
        have = {e for n in f.nodes.values() if n["k"] == "DeclRefExpr" for e in [I.evar(f, n)] if e} | {("v", p["id"]) for p in f.params if I.evec(f.ptype(p).rstrip("*& "))}
        if not have:
            continue
        for n in f.calls():
            for h in I.targets(n):
                js = [j for j, p in enumerate(h.params) if I.evec(h.ptype(p).rstrip("*& ")) and not h.ptype(p).startswith("const") and h.ptype(p).rstrip()[-1:] in "*&"]
                a = call_args(f, n)
                for j in js:
                    ok = j < len(a) and I.evar(f, a[j]) is not None
                    c.ob("deliver", ok, f.loc(n), "%s:%s:passed" % (f.name, h.short), "%s: the reports of %s are not collected" % (f.name, h.short), {"function": f.name, "call": h.short})

    # ---------------------------------------------------------------- status
    for f in I.fs:
        for n in f.calls():
            nm = last(n.get("f", ""))
            if nm in ("save_file", "load_file", "save", "load_buffer", "load", "load_string") and (n.get("f") or "").startswith("pugi::"):
                used = tested(P, I, f, n)
                c.ob("status", used, f.loc(n), "%s:%s" % (f.name, nm), "%s: a failure of %s is not reported" % (f.name, nm), {"function": f.name, "call": nm})
        for d in f.all("DeclStmt"):
            for v in d.get("vars", ()):
                t = f.types[v["t"]] if isinstance(v.get("t"), int) else ""
                m = re.search(r"basic_(o|i)fstream|std::(o|i)fstream", t)
                if not m:
                    continue
                vid = v["id"]
                state = lambda y: y["k"] in CALLS and (last(y.get("f", "")) in ("good", "fail", "bad", "is_open", "operator!", "operator bool") and call_obj(f, y) is not None and base(f, call_obj(f, y)) == vid or
                                                       y.get("op") == "!" and base(f, y["c"][1]) == vid)
                checks = [y for y in f.calls() if state(y)]
                out = "ofstream" in m.group(0) or m.group(1) == "o"
                good = [y for y in checks if fails(P, I, f, y)]
                ids = {y["i"] for y in good}
                p = escape(P, f, d, lambda x: x["i"] in ids or any(z["i"] in ids for z in wk(f, x) if z["k"] in CALLS))
                c.ob("status", bool(good) and p is None, f.loc(d), "%s:open" % f.name, "%s: a file that cannot be opened is not reported" % f.name, {"function": f.name})
                if out:
                    wr = [x for x in f.nodes.values() if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXOperatorCallExpr") and P.where(f, x) and
                          x.get("op") != "!" and any(base(f, a) == vid for a in (x["c"] if x["k"] != "CXXOperatorCallExpr" else x["c"][1:]) if a is not None)]
                    fin = [y for y in good if any(z["k"] in CALLS and last(z.get("f", "")) in ("flush", "close") and call_obj(f, z) is not None and base(f, call_obj(f, z)) == vid for z in wk(f, y))
                           or flushed(P, f, y, vid)]
                    fi = {y["i"] for y in fin}
                    for x in wr:
                        p = escape(P, f, x, lambda z: z["i"] in fi)
                        c.ob("status", p is None, f.loc(x), "%s:written" % f.name, "%s: data that could not be written is not noticed: the stream is not flushed and checked afterwards" % f.name,
                             {"function": f.name})


def strval(P, q):
    """value of a string constant"""
    if q.startswith('"'):
        return q.strip('"')
    v = P.vars.get(q) or next((w for k, w in P.vars.items() if k.startswith(q + "@")), None)
    i = (v or {}).get("init")
    return i.get("v") if isinstance(i, dict) else None


def base(f, n):
    n = unwrap(f, n)
    for _ in range(6):
        if n["k"] == "DeclRefExpr":
            return n.get("d", {}).get("id")
        if n["k"] in CALLS and call_obj(f, n) is not None and last(n.get("f", "")) in ("flush", "write", "put", "seekp"):
            n = unwrap(f, call_obj(f, n))
            continue
        return None


def flushed(P, f, y, vid):
    """a flush or close of the stream comes before the test y on every path"""
    return not reaches(P, f, y, lambda z: z["k"] in CALLS and last(z.get("f", "")) in ("flush", "close") and call_obj(f, z) is not None and base(f, call_obj(f, z)) == vid)


def fails(P, I, f, y):
    """one outcome of the test y always ends in a report or throw"""
    B = f.cfg["blocks"]
    for b, blk in B.items():
        cn = f.nodes.get(blk.get("cond")) if "cond" in blk else None
        if cn is None or len(blk["s"]) != 2:
            continue
        if cn["i"] == y["i"] or any(z["i"] == y["i"] for z in wk(f, cn)):
            for s in blk["s"]:
                if s is not None and escape(P, f, s, lambda n: I.isreport(f, n)) is None:
                    return True
    return False


def tested(P, I, f, n):
    """the result of n is tested, and one outcome always ends in a report or throw"""
    keys = {n["i"]}
    vs = set()
    for d in f.all("DeclStmt"):
        for v in d.get("vars", ()):
            if isinstance(v.get("init"), dict) and any(z["i"] == n["i"] for z in wk(f, v["init"])):
                vs.add(v["id"])
    B = f.cfg["blocks"]
    for b, blk in B.items():
        cn = f.nodes.get(blk.get("cond")) if "cond" in blk else None
        if cn is None or len(blk["s"]) != 2:
            continue
        if any(z["i"] in keys or z["k"] == "DeclRefExpr" and z.get("d", {}).get("id") in vs for z in wk(f, cn)):
            for s in blk["s"]:
                if s is not None and escape(P, f, s, lambda x: I.isreport(f, x)) is None:
                    # and every path from n passes the test
                    if escape(P, f, n, lambda x: x["i"] == cn["i"]) is None:
                        return True
    return False


def loop_node(P, f, l):
    h = loop_head(P, f, l)
    return f.cfg["blocks"][h].get("cond") if h is not None else l["i"]


def reach_from(P, f, b0, n, stop, prune=None, fresh=False, start=None):
    """a path to node n on which nothing satisfies stop"""
    w = P.where(f, n)
    if w is None:
        return ()
    B = f.cfg["blocks"]
    if start is not None:
        ws = P.where(f, start)
        if ws is None:
            return None
        st = [(ws[0], ws[1] + 1, (ws[0],))]
    else:
        st = [(b0, 0, (b0,))]
    seen = set()
    while st:
        b, i, path = st.pop()
        es = B[b]["e"][i:]
        hit = False
        for j, e in enumerate(es):
            if b == w[0] and i + j == w[1]:
                return path
            if isinstance(e, int) and e in f.nodes and stop(f.nodes[e]):
                hit = True
                break
        if hit:
            continue
        for si, s in enumerate(B[b]["s"]):
            if s is None or s in seen:
                continue
            if prune and prune(edge_facts(P, f, b, si)):
                continue
            seen.add(s)
            st.append((s, 0, path + (s,)))
    return None


def reach_unreported(P, I, f, n):
    return reach_from(P, f, f.cfg["entry"], n, lambda x: I.isreport(f, x)) is not None


def lines(f, path, head):
    ls = []
    for b in path or ():
        blk = f.cfg["blocks"][b]
        for e in list(blk["e"]) + [blk.get("ti")]:
            n = f.nodes.get(e) if isinstance(e, int) else None
            if n is not None and n.get("l") and (not ls or ls[-1] != n["l"]) and b != head:
                ls.append(n["l"])
    return " (path: lines %s)" % ", ".join(str(x) for x in ls[:8]) if ls else ""
