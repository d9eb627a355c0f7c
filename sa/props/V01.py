"""V01: every selected validator runs and every error and warning it finds is reported."""
import re
from ..core import *
from ..flow import Flow, RET, CTL
from ..paths import *
from ..facts import AnalysisBroken

NS = "lanelet::validation::"
KINDS = {"MapValidator": "Map", "TrafficRuleValidator": "TrafficRule", "RoutingGraphValidator": "RoutingGraph"}
ISSUE = re.compile(r"\b(DetectedIssues|Issues|Issue)\b|vector<lanelet::validation::(Issue|DetectedIssues)")
SHRINK = {"clear", "erase", "pop_back", "resize", "assign", "swap", "operator="}


def vtype(v):
    ts = v.get("_types")
    return ts[v["t"]] if ts else ""


def bases(P, r, seen=None):
    out = set()
    for b in r.get("bases", ()):
        b = (b.get("n") or b.get("t", "")) if isinstance(b, dict) else b
        b = re.sub(r"^(public|protected|private)\s+", "", b)
        out.add(b)
        if b in P.recbyname:
            out |= bases(P, P.recbyname[b] if isinstance(P.recbyname[b], dict) else P.recbyname[b][0])
    return out


def literal(P, f):
    """string literal a function returns"""
    r = [n for n in f.all("ReturnStmt")]
    if len(r) != 1 or not r[0].get("c"):
        return None
    k = P.key(f, r[0]["c"][0])
    return k[1:-1] if k.startswith("'") else None


def is_issue(t):
    return bool(ISSUE.search(t))


def in_validation(f):
    return "/lanelet2_validation/" in "/" + f.loc()


def enclosing_try(f, n):
    """try statements whose protected block contains n"""
    x, p = n, f.parent(n)
    while p is not None:
        if p["k"] == "CXXTryStmt" and f.node(p["c"][0])["i"] == x["i"]:
            yield p
        x, p = p, f.parent(p)


def in_handler(f, n):
    p = f.parent(n)
    while p is not None:
        if p["k"] == "CXXCatchStmt":
            return p
        p = f.parent(p)
    return None


def run(c):
    P = c.program("core", "io", "projection", "traffic_rules", "routing", "validation")
    F = Flow(P)
    lib = [f for f in P.lib() if in_validation(f) and not f.flag("dep") and "/test/" not in f.loc()]
    roots = [f for f in lib if f.kind != "lambda"]
    c.analysed["validation_functions"] = len(lib)
    if not any(f.short == "validateMap" for f in lib):
        raise AnalysisBroken("validateMap vanished")

    # ------------------------------------------------------------------ registration
    c.rule("registered", "every validator class is registered, as the kind it derives from, by an object with static storage", 5)
    c.rule("name", "validator names are non-empty and no two validators share one", 5)
    regs = {}
    for q, v in P.vars.items():
        m = re.match(r".*\bRegister(Map|TrafficRule|RoutingGraph)Validator<(?:class )?(.*)>$", vtype(v).replace("const ", ""))
        if m:
            regs.setdefault(m.group(2), set()).add(m.group(1))
    names = {}
    for rn, r in P.recbyname.items():
        r = r[0] if isinstance(r, list) else r
        if r.get("dep") or not rn.startswith("lanelet::"):
            continue
        k = [KINDS[b.rsplit("::", 1)[-1]] for b in bases(P, r) if b.rsplit("::", 1)[-1] in KINDS]
        if not k or "/lanelet2_validation/" not in r["file"]:
            continue
        where = f"{r['file'].replace('/repo/', '')}:{r['line']}"
        got = {x for t, s in regs.items() if t == rn or t.rsplit("::", 1)[-1] == rn.rsplit("::", 1)[-1] for x in s}
        c.ob("registered", got == set(k), where, rn, f"{rn} is a {k[0]}Validator and is registered as {sorted(got) or 'nothing'}: it is never run")
        nf = [f for f in P.byname.get(rn + "::name", ())]
        nm = literal(P, nf[0]) if nf else None
        if not nf:
            c.ob("name", False, where, rn, f"{rn} declares no name() of its own, so it cannot be selected")
        elif nm is None:
            c.note(f"name of {rn} is not a literal; not compared")
        else:
            c.ob("name", nm != "" and nm not in names, where, rn, f"name '{nm}' of {rn} is {'empty' if not nm else 'also the name of ' + names.get(nm, '')}: only one of both is kept")
            names.setdefault(nm, rn)

    # ------------------------------------------------------------------ factory
    c.rule("factory", "the registration object hands its own class and name to the registry of its kind, and that registry is the one read when validators of the kind are created or listed", 6)
    regfield, newfield = {}, {}
    for kind in KINDS.values():
        for f in P.byname.get(NS + f"ValidatorFactory::register{kind}Validator", ()):
            g = F.graph(f)
            fl = set()
            for i, p in enumerate(f.params):
                fl.add(frozenset(x[1] for x in g.reach([("v", p["id"])]) if x[0] == "tf"))
            regfield[kind] = set.intersection(*[set(x) for x in fl]) if fl else set()
            c.ob("factory", bool(regfield[kind]), f.loc(), f"register{kind}", f"register{kind}Validator does not store its name and creator in the factory")
        for f in P.byname.get(NS + f"ValidatorFactory::create{kind}Validators", ()):
            g = F.graph(f)
            flds = {x for x in list(g.succ) if x[0] == "tf"}
            newfield[kind] = {x[1] for x in flds if RET in g.reach([x])}
            sel = any(RET in g.reach([("v", p["id"])]) or CTL in g.reach([("v", p["id"])]) for p in f.params)
            c.ob("factory", bool(newfield[kind] & regfield.get(kind, set())) and sel, f.loc(), f"create{kind}",
                 f"create{kind}Validators does not create what register{kind}Validator stored, or ignores the selection")
    for f in P.byname.get(NS + "ValidatorFactory::availableValidators", ()):
        g = F.graph(f)
        got = {x[1] for x in list(g.succ) if x[0] == "tf" and RET in g.reach([x])}
        for kind in KINDS.values():
            c.ob("factory", bool(got & regfield.get(kind, set())), f.loc(), f"available{kind}", f"availableValidators does not list validators registered as {kind}Validator")
    for f in lib:
        m = re.search(r"::Register(Map|TrafficRule|RoutingGraph)Validator<?.*::Register\1Validator", f.name)
        if f.kind != "ctor" or not re.search(r"Register(Map|TrafficRule|RoutingGraph)Validator", f.cls or ""):
            continue
        kind = re.search(r"Register(Map|TrafficRule|RoutingGraph)Validator", f.cls).group(1)
        cl = [n for n in f.calls() if (n.get("f") or "").startswith(NS + "ValidatorFactory::register")]
        ok = len(cl) >= 1
        made = named = None
        for n in cl:
            ok = ok and n["f"].endswith(f"register{kind}Validator")
            for a in call_args(f, n):
                for x in walk(a):
                    for l in P.lambdas(f.node(x)):
                        for y in l.all("CXXNewExpr"):
                            made = l.type(y).rstrip("* ")
                for x in walk(a):
                    x = f.node(x)
                    if x["k"] == "CallExpr" and (x.get("f") or "").endswith("::name"):
                        named = x["f"][:-6]
        ok = ok and made is not None and named is not None and made.rsplit("::", 1)[-1] == named.rsplit("::", 1)[-1]
        c.ob("factory", ok, f.loc(), f"Register{kind}<{made or named}>", f"Register{kind}Validator registers {made} under the name of {named}, or as another kind")

    # ------------------------------------------------------------------ selection
    c.rule("selection", "a selection consisting of several expressions is used as a whole", 2)
    for f in roots:
        for p in f.params:
            if not re.search(r"vector<std::(__cxx11::)?basic_regex|Regexes", f.ptype(p)):
                continue
            for n in f.all("DeclRefExpr"):
                if n["d"].get("id") != p["id"]:
                    continue
                q = f.parent(n)
                bad = None
                if q is not None and q["k"] == "MemberExpr":
                    m = short(q.get("m") or q.get("n") or "")
                    if m in ("front", "back", "at", "data", "resize", "pop_back", "erase", "clear"):
                        bad = m
                if q is not None and q["k"] == "CXXOperatorCallExpr" and q.get("op") == "[]":
                    i = q["c"][2] if len(q["c"]) > 2 else None
                    if i is not None and const_int(f, i) is not None:
                        bad = "[]"
                c.ob("selection", bad is None, f.loc(n), f"{f.short}|{bad}", f"{f.short} uses only part of the selection ({bad})")

    # ------------------------------------------------------------------ every kind is run
    run = [f for f in roots if f.short == "validateMap"]
    mapv = [f for f in run if any("LaneletMap" in f.ptype(p) for p in f.params)]
    filev = [f for f in run if f not in mapv]
    memo = {}

    def creates(f, n, kind):
        return n["k"] in CALLS and n.get("f") == NS + f"ValidatorFactory::create{kind}Validators"

    def must(f, kind, stack=()):
        if (f.id, kind) in memo:
            return memo[(f.id, kind)]
        if f.id in stack or not f.cfg:
            return False

        def stop(n):
            if creates(f, n, kind):
                return True
            if n["k"] in CALLS and n.get("fid") and not n.get("fvirt"):
                t = [t for t in P.targets(n) if in_validation(t)]
                return bool(t) and all(must(x, kind, stack + (f.id,)) for x in t)
            return False
        r = all_paths(P, f, None, stop)
        memo[(f.id, kind)] = r
        return r
    c.rule("kinds", "validating a map runs the validators of all three kinds on every path", 3)
    for f in mapv:
        for kind in KINDS.values():
            c.ob("kinds", must(f, kind), f.loc(), f"{f.short}|{kind}", f"there is a path through {f.short} on which no {kind}Validator is created")
    for f in filev:
        ok = any(n.get("fid") in {x.id for x in mapv} for n in f.calls())
        c.ob("kinds", ok, f.loc(), "file->map", "validating a map file does not validate the map that was loaded")

    # ------------------------------------------------------------------ loops see every element
    c.rule("loops", "a loop over validators, rules, participants or names is not left early and no iteration skips the work without reporting an issue", 3)

    def work(f, n):
        if n["k"] not in CALLS:
            return False
        nm = n.get("f") or ""
        if nm.endswith("operator()"):
            return True
        return nm in ("lanelet::traffic_rules::TrafficRulesFactory::create", "lanelet::routing::RoutingGraph::build") or \
            any(in_validation(t) and re.search(r"DetectedIssues|Validator", t.ret()) for t in P.targets(n))
    sel = lambda t: re.search(r"Validator|TrafficRules|DetectedIssues|regex|string", t)
    for f in lib:
        if not f.cfg or not ("/src/Validation.cpp" in f.loc() or "/src/ValidatorFactory.cpp" in f.loc() or "/src/Cli.cpp" in f.loc() or "/src/validators/" in f.loc()):
            continue
        if not re.search(r"Issue|vector|Validators|void", f.ret()):
            continue
        for l in loops(f):
            ex = [x for x in early_exits(f, l) if in_handler(f, x) is None]
            bad = None
            for x in ex:
                bad = x
            c.ob("loops", bad is None, f.loc(l), f"{f.short}|{l['k']}|exit", f"the loop in {f.short} is left early ({f.loc(bad) if bad else ''}): the remaining elements are not examined")
            ws = [n for n in (f.node(x) for x in walk(body_of(f, l) or {"k": "", "i": -1})) if n.get("i", -1) >= 0 and work(f, n)]
            be = loop_body_entry(P, f, l)
            head = loop_head(P, f, l)
            if ws and be is not None:
                for w in {P.key(f, w) + "": w for w in ws}.values():
                    wid = w["i"]
                    inner = set()
                    for l2 in loops(f):
                        ids = {f.node(x)["i"] for x in walk(l2)}
                        if l2["i"] != l["i"] and wid in ids and l["i"] not in ids:
                            inner |= ids
                    p = escape(P, f, be, lambda n: n["i"] == wid or n["i"] in inner, lambda fs: any(x[0] == "empty" and x[2] for x in fs), goals={head})
                    # a second work item may be skipped after the first one failed and reported so
                    c.ob("loops", p is None, f.loc(w), f"{f.short}|{short(w.get('f'))}|skipped", f"an iteration of the loop in {f.short} can skip {short(w.get('f'))}")

    # ------------------------------------------------------------------ nothing found is dropped
    c.rule("flow", "every issue, error message or report produced reaches the result of the function that obtained it", 10)
    c.rule("paths", "between obtaining issues and reporting them no path drops them, except when there are none", 2)
    c.rule("kept", "collected issues are never cleared or overwritten", 1)

    def sinks(root):
        return [("v", p["id"]) for p in root.params if Flow.mutable(root.ptype(p))] + [RET]

    def owner_root(f):
        for r in roots:
            if f.id == r.id:
                return r
        for r in roots:
            if f.id in F.graph(r).lams:
                return r
        return None
    top = {}
    for r in roots:
        for l in F.graph(r).lams:
            top[l] = r
    ntot = 0
    for f in lib:
        root = top.get(f.id)
        if root is None or not f.cfg:
            continue
        g = F.graph(root)
        if root.short in ("printAllIssues", "main") or root.kind == "ctor" or root.ret() == "int":
            continue
        sk = set(sinks(root))
        ok_back = g.back([x for x in sk])
        retvoid = root.ret() == "void"
        for n in f.calls():
            t = f.type(n)
            nm = n.get("f") or ""
            src = None
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if re.search(r"\bIssue$", t) and len(call_args(f, n)) >= 2:
                    src = ("e", f.id, n["i"])
            elif short(nm) in ("emplace_back", "push_back", "emplace", "insert") and call_obj(f, n) is not None and is_issue(f.type(call_obj(f, n))):
                o = call_obj(f, n)
                v = root_var(f, o)
                if v is not None and o["k"] == "DeclRefExpr":
                    src = ("v", v)
            elif is_issue(t) and not re.search(r"iterator|::(begin|end|size|empty|front|back|operator\*|operator\[\])$", t + nm) and \
                    short(nm) not in ("begin", "end", "front", "back", "at", "move", "forward", "get"):
                src = ("e", f.id, n["i"])
            elif nm.endswith("RoutingGraph::checkValidity"):
                src = ("e", f.id, n["i"])
            elif nm == "lanelet::load":
                for a in call_args(f, n):
                    u = unwrap(f, a)
                    if u["k"] == "UnaryOperator" and u.get("op") == "&" and "string" in f.type(u):
                        v = root_var(f, u["c"][0])
                        if v:
                            src = ("va", v)
                if src is None:
                    # without an error list load() throws on errors: they are reported by the handler
                    continue
            if src is None:
                continue
            if in_handler(f, n) is None or True:
                ntot += 1
                seen = g.reach([src])
                ok = any(s in seen for s in sk) or any(s[0] == "v" and ("va", s[1]) in seen and False for s in sk)
                c.ob("flow", ok, f.loc(n), f"{root.short}|{short(nm) or 'Issue'}", f"the result of {short(nm) or 'Issue'} in {root.short} never reaches what {root.short} returns: issues are lost")
            # path rule
            if root.ret() != "int" and src[0] == "e" and n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                d = f.parent(n)
                while d is not None and d["k"] not in ("DeclStmt", "CompoundStmt"):
                    d = f.parent(d)
                if d is None or d["k"] != "DeclStmt":
                    continue
                vs = [v for v in d.get("vars", ()) if v.get("init") is not None and f.node(unwrap(f, v["init"]))["i"] == n["i"]]
                if not vs:
                    continue
                vid = vs[0]["id"]
                check_paths(c, P, F, f, g, root, vid, n, sk)
        for n in f.calls():
            nm = short(n.get("f") or "")
            if nm in SHRINK:
                o = call_obj(f, n)
                if o is None or not is_issue(f.type(o)):
                    continue
                st = P.state_at(f, n) or ()
                ok = ("empty", P.key(f, o), True) in st
                c.ob("kept", ok, f.loc(n), f"{root.short}|{nm}", f"{root.short} drops collected issues ({nm})")
            elif nm in ("push_back", "emplace_back", "insert") and call_obj(f, n) is not None and is_issue(f.type(call_obj(f, n))):
                c.ob("kept", True, f.loc(n), f"{root.short}|{nm}", "")
    # error list of load()
    for f in lib:
        for n in f.calls():
            if n.get("f") == "lanelet::load":
                for a in call_args(f, n):
                    u = unwrap(f, a)
                    if u["k"] == "UnaryOperator" and u.get("op") == "&" and "string" in f.type(u):
                        v = root_var(f, u["c"][0])
                        if v and f.id in top:
                            check_paths(c, P, F, f, F.graph(top[f.id]), top[f.id], v, n, set(sinks(top[f.id])))

    # ------------------------------------------------------------------ severities
    c.rule("severity", "errors and warnings end up in their own list of the report, which keeps every issue of its severity", 4)
    sev = {"Error": "errors", "Warning": "warnings"}
    acc = {}
    for name, s in (("errors", "Error"), ("warnings", "Warning")):
        for f in P.byname.get(NS + f"DetectedIssues::{name}", ()):
            acc[f.id] = s
            n_ok = None
            for n in f.calls():
                if short(n.get("f") or "") in ("push_back", "emplace_back"):
                    st = P.state_at(f, n) or ()
                    cond = [x for x in st if not re.search(r"isend", x[0]) and "__begin" not in x[1].split(".severity")[0].replace("*v:__begin", "") and not x[1].startswith("this.issues.end()") and x[0] != "empty"]
                    here = [x for x in st if x[0] in ("eq", "case") and x[2] and ".severity" in x[1]]
                    ok = any(x[1].endswith(f"Severity::{s}") or f"Severity::{s}=" in x[1] for x in here)
                    other = [x for x in st if x[0] == "true" or (x[0] in ("eq", "cmp") and ".severity" not in x[1] and "end()" not in x[1])]
                    n_ok = ok and not other
                    c.ob("severity", n_ok, f.loc(n), f"{name}|filter", f"DetectedIssues::{name} does not keep exactly the issues of severity {s}")
            if n_ok is None:
                n2 = [n for n in f.calls() if re.search(r"copy_if|remove_if|remove_copy_if", n.get("f") or "")]
                c.note(f"DetectedIssues::{name} filters without push_back; only checked to mention Severity::{s}")
                fs = [f] + [l for n in f.nodes.values() for l in P.lambdas(n)]
                ment = {n["d"]["n"] for h in fs for n in h.all("DeclRefExpr") if n["d"].get("k") in ("Enum", "EnumConstant")}
                c.ob("severity", {x.rsplit("::", 1)[-1] for x in ment} == {s}, f.loc(), f"{name}|filter", f"DetectedIssues::{name} does not select by severity {s}")
    for f in P.byname.get(NS + "buildReport", ()):
        g = F.graph(f)
        hit = set()
        for h in [f] + [P.funcs[l] for l in g.lams if l != f.id]:
            for n in h.calls():
                s = acc.get(n.get("fid"))
                if not s:
                    continue
                seen = g.reach([("e", h.id, n["i"])], lam=False)
                to = {x[2] for x in seen if x[0] == "vf" and "IssueReport" in str(x[2])}
                to = {str(x).rsplit("::", 1)[-1] for x in to}
                if RET in seen:
                    hit.add(s)
                c.ob("severity", sev[s] in to and not (set(sev.values()) - {sev[s]}) & to, h.loc(n), f"buildReport|{s}",
                     f"issues of severity {s} go to {sorted(to) or 'nothing'} of the report")
        for s in sev:
            if s not in hit:
                wr = []
                for h in [f] + [P.funcs[l] for l in g.lams if l != f.id]:
                    for n in h.calls():
                        o = call_obj(h, n)
                        if o is not None and short(n.get("f")) in ("push_back", "emplace_back", "insert") and o["k"] == "MemberExpr" and \
                                str(o.get("m") or o.get("n")).rsplit("::", 1)[-1] == sev[s]:
                            wr.append((h, n))
                ok = any(any(x[0] in ("eq", "case") and x[2] and f"Severity::{s}" in x[1] for x in P.state_at(h, n) or ()) for h, n in wr)
                c.ob("severity", ok, f.loc(), f"buildReport|{s}", f"buildReport never adds the issues of severity {s} to the report")
        for l in loops(f):
            body = body_of(f, l)
            for n in (f.node(x) for x in walk(body)):
                if acc.get(n.get("fid")):
                    be, head = loop_body_entry(P, f, l), loop_head(P, f, l)
                    if be is not None:
                        p = escape(P, f, be, lambda m: m["i"] == n["i"], lambda fs: any(x[0] == "empty" and x[2] for x in fs), goals={head})
                        c.ob("severity", p is None, f.loc(n), f"buildReport|{acc[n['fid']]}|skipped", "buildReport can skip the issues of a check")
                    d = f.parent(n)
                    while d is not None and d["k"] not in ("DeclStmt", "CompoundStmt"):
                        d = f.parent(d)
                    if d is not None and d["k"] == "DeclStmt":
                        check_paths(c, P, F, f, g, f, d["vars"][0]["id"], d, {RET})
    for f in P.byname.get(NS + "printAllIssues", ()):
        br = [n for n in f.calls() if n.get("f") == NS + "buildReport"]
        fields = {str(n.get("m") or n.get("n")).rsplit("::", 1)[-1] for n in f.all("MemberExpr")}
        printed = set()
        g = F.graph(f)
        for n in f.calls():
            if (n.get("op") == "<<") and "ostream" in f.type(n):
                bk = g.back([("e", f.id, n["i"])])
                for x in bk:
                    if x[0] == "vf":
                        # only element output counts, not the size
                        printed.add(str(x[2]).rsplit("::", 1)[-1])
        for s in sev.values():
            lp = [l for l in loops(f) if s in {str(f.node(x).get("m") or f.node(x).get("n")).rsplit("::", 1)[-1] for x in walk(l.get("range") or l) if f.node(x)["k"] == "MemberExpr"}]
            use = [n for n in f.calls() if re.search(r"std::(copy|for_each)|ostream_iterator", n.get("f") or "")]
            c.ob("severity", bool(lp) or bool(use), f.loc(), f"print|{s}", f"printAllIssues does not print the {s} of the report")

    # ------------------------------------------------------------------ exit code
    c.rule("exit", "after validating, zero is returned only when there are no issues, and the tool exits with that code", 2)
    for f in roots:
        vm = [n for n in f.calls() if n.get("fid") in {x.id for x in filev}]
        if not vm or f.ret() != "int" or not f.cfg:
            continue
        v = vm[0]
        reach = blocks_from(f, P.where(f, v)[0])
        for r in f.all("ReturnStmt"):
            w = P.where(f, r)
            if w is None or w[0] not in reach or (w[0] == P.where(f, v)[0] and w[1] < P.where(f, v)[1]):
                continue
            e = r["c"][0]
            ok = nonzero_unless_empty(P, f, r, e)
            c.ob("exit", ok, f.loc(r), f"{f.short}|{P.key(f, e)[:60]}", f"{f.short} can return 0 although issues were found")
    for f in P.funcs.values():
        if f.short == "main" and "lanelet2_validation/" in f.loc():
            rs = list(f.all("ReturnStmt"))
            rc = [n for n in f.calls() if (n.get("f") or "") == NS + "runFromConfig"]
            g = F.graph(f)
            c.ob("exit", bool(rc) and all(RET in g.reach([("e", f.id, n["i"])]) for n in rc), f.loc(), "main", "the tool does not exit with the code of runFromConfig")
            if rc:
                p = escape(P, f, rc[0], lambda n: n["k"] == "ReturnStmt" and any(f.node(x)["i"] == rc[0]["i"] for x in walk(n)) or n["k"] == "ReturnStmt" and ("e", f.id, n["c"][0]["i"]) in g.reach([("e", f.id, rc[0]["i"])]))
                c.ob("exit", p is None, f.loc(), "main|path", "the tool can exit with another code than that of runFromConfig")

    # ------------------------------------------------------------------ failures of the preparation
    c.rule("handlers", "a handler that stops a library exception turns it into an error in the result", 2)
    c.rule("prepare", "loading, projecting, creating rules and building graphs happens where a library exception is turned into an issue", 4)
    tops = {f.id for f in run}
    reach = P.reach(run)
    prep = re.compile(r"^lanelet::(load|Projector|projection::[A-Za-z]+Projector::[A-Za-z]+Projector|traffic_rules::TrafficRulesFactory::create|routing::RoutingGraph::build)$")
    callers = P.callers()

    def caught(f, n, d=0):
        for t in enclosing_try(f, n):
            for h in t["c"][1:]:
                h = f.node(h)
                ty = "..." if h.get("ct", -1) == -1 else f.types[h["ct"]]
                if ty == "..." or re.search(r"LaneletError|std::exception|runtime_error", ty):
                    return True
        if f.id in tops or d > 4:
            return False
        cs = [(g, m) for g, m in callers.get(f.id, ()) if g.id in reach and in_validation(g)]
        return bool(cs) and all(caught(g, m, d + 1) for g, m in cs)
    for f in lib:
        if f.id not in reach:
            continue
        for n in f.calls():
            if prep.match(n.get("f") or "") and not n.get("copy") and not n.get("move"):
                c.ob("prepare", caught(f, n), f.loc(n), f"{f.short}|{short(n['f'])}", f"an error raised by {short(n['f'])} leaves the validation instead of being part of the report")
        for h in f.all("CXXCatchStmt"):
            if f.id not in top:
                continue
            root = top[f.id]
            g = F.graph(root)
            back = g.back(sinks(root))
            subs = [f.node(x) for x in walk(h)]
            ok = any(x["k"] == "CXXThrowExpr" for x in subs)
            for x in subs:
                if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CallExpr", "CXXMemberCallExpr") and is_issue(f.type(x)) and ("e", f.id, x["i"]) in back:
                    m = [f.node(y) for y in walk(x)]
                    if any(y["k"] == "DeclRefExpr" and str(y["d"].get("n", "")).endswith("Error") and "Severity" in f.type(y) for y in m):
                        ok = True
            # every path through the handler reports
            if ok:
                hb = next((b for b, blk in f.cfg["blocks"].items() if blk.get("labi") == h["i"]), None)
                if hb is not None:
                    ids = {x["i"] for x in subs}
                    p = escape(P, f, hb, lambda n: n["i"] in ids and (n["k"] == "CXXThrowExpr" or (n["k"] in CALLS and is_issue(f.type(n)))))
                    ok = p is None
            c.ob("handlers", ok, f.loc(h), f"{root.short}|catch", f"{root.short} swallows an exception without an error in the result")


def blocks_from(f, b):
    seen, st = {b}, [b]
    while st:
        x = st.pop()
        for s in f.cfg["blocks"][x]["s"]:
            if s is not None and s not in seen:
                seen.add(s)
                st.append(s)
    return seen


def check_paths(c, P, F, f, g, root, vid, start, sk):
    """every path from start passes a use of the variable that takes it to the result, unless the variable is empty"""
    uses = [n for n in f.all("DeclRefExpr") if n["d"].get("id") == vid]
    if not uses:
        c.ob("paths", False, f.loc(start), f"{root.short}|unused", f"{root.short} obtains issues and never looks at them")
        return
    key = P.key(f, uses[0])
    cons = set()
    for u in uses:
        # the largest expression the use flows into within its statement, if that reaches a sink
        x = f.parent(u)
        if x is not None and x["k"] == "MemberExpr" and (x.get("m") or x.get("n") or "").rsplit("::", 1)[-1] in ("empty", "size"):
            continue
        if any(s in g.reach([("e", f.id, u["i"])]) for s in sk):
            cons.add(u["i"])
    # loops over the value count as taking it
    def stop(n):
        return n["i"] in cons

    def prune(fs):
        return any(x[0] == "empty" and x[1] == key and x[2] for x in fs) or any(x[0] in ("minsize",) and False for x in fs)
    p = escape(P, f, start, stop, prune, goals={P.where(f, start)[0]} if P.where(f, start) else None)
    c.ob("paths", p is None, f.loc(start), f"{root.short}|{vid.split('#')[0]}", f"on some path {root.short} does not report what it obtained here although it may not be empty")


def nonzero_unless_empty(P, f, r, e):
    st = P.state_at(f, r) or ()
    emp = {x[1] for x in st if x[0] == "empty" and x[2]}
    ks = issue_keys(P, f)
    if emp & ks:
        return True
    return tern(P, f, e, ks)


def issue_keys(P, f):
    out = set()
    for n in f.all("DeclRefExpr", "CallExpr"):
        if is_issue(f.type(n)):
            out.add(P.key(f, n))
    return out


def tern(P, f, e, ks):
    """the expression is non-zero unless the issues are empty"""
    u = unwrap(f, e)
    ci = const_int(f, u)
    if ci is not None:
        return ci != 0
    if u["k"] == "ParenExpr":
        return tern(P, f, u["c"][0], ks)
    if u["k"] == "ConditionalOperator":
        out = True
        for pol, br in ((True, u["c"][1]), (False, u["c"][2])):
            fs = P.assume(f, u["c"][0], pol)
            if any(x[0] == "empty" and x[1] in ks and x[2] for x in fs):
                continue
            out = out and tern(P, f, br, ks)
        return out
    if u["k"] == "DeclRefExpr":
        v = root_var(f, u)
        d = f.vardef(v) if v else None
        if d is not None and not [m for m in f.mods.get(v, ()) if m["k"] != "DeclStmt"]:
            return tern(P, f, d, ks)
    # boolean expression: false only if empty
    try:
        fs = P.assume(f, u, False)
    except Exception:
        fs = ()
    return any(x[0] == "empty" and x[1] in ks and x[2] for x in fs)
