"""I04: everything that can be created by name is registered under the right name."""
import re
from ..core import *
from ..flow import Flow
from ..paths import *
from ..facts import AnalysisBroken
from .V01 import bases, literal, vtype
from .V02 import Eval, Unknown, wk

BASE = {"RegisterRegulatoryElement": "RegulatoryElement", "RegisterParser": "io_handlers::Parser", "RegisterWriter": "io_handlers::Writer",
        "RegisterTrafficRules": "traffic_rules::TrafficRules", "RegisterMapValidator": "validation::MapValidator",
        "RegisterTrafficRuleValidator": "validation::TrafficRuleValidator", "RegisterRoutingGraphValidator": "validation::RoutingGraphValidator"}


def last(q):
    return q.rsplit("::", 1)[-1]


def run(c):
    P = c.program("core", "io", "traffic_rules", "routing", "validation")
    F = Flow(P)
    E = Eval(P)
    lib = [f for f in P.lib() if not f.flag("dep") and "/test/" not in f.loc()]
    regs = {}
    for q, v in P.vars.items():
        m = re.match(r"(?:const )?(?:.*::)?(Register\w+)<(?:class |struct )?(.*)>$", vtype(v))
        if m and m.group(1) in BASE:
            regs.setdefault((m.group(1), m.group(2)), []).append(v)
    if not regs:
        raise AnalysisBroken("no registration objects found")

    c.rule("registered", "every concrete class of a family that is created by name has a registration object of its family", 12)
    c.rule("unique", "names, extensions and (location, participant) pairs are not empty and not shared within a family", 12)
    fam = {}
    for q, r in sorted(P.recbyname.items()):
        r = r if isinstance(r, dict) else r[0]
        if r.get("dep") or r.get("abstract") or not q.startswith("lanelet::") or "<" in q or "/src/" in r.get("file", "") and "(anon)" in q and False:
            continue
        bs = bases(P, r)
        for reg, b in BASE.items():
            if "lanelet::" + b in bs or any(x.startswith("lanelet::Primitive<") and b == "RegulatoryElement" and "RegulatoryElement" in x for x in bs):
                fam.setdefault(reg, []).append((q, r))
    for reg, l in sorted(fam.items()):
        seen = {}
        for q, r in l:
            where = f"{r['file'].replace('/repo/', '')}:{r['line']}"
            got = {k[0] for k in regs if last(k[1]) == last(q)}
            c.ob("registered", reg in got, where, q, f"{q} cannot be created by name: it is registered as {sorted(got) or 'nothing'} instead of {reg}", f"{q} {reg}")
            keys = []
            if reg == "RegisterRegulatoryElement":
                try:
                    keys = [("name", E.var(q + "::RuleName"))]
                except Unknown:
                    c.note(f"{q}: RuleName not evaluated")
            elif reg == "RegisterTrafficRules":
                for v in regs.get((reg, q), []) or [v for k, vs in regs.items() if k[0] == reg and last(k[1]) == last(q) for v in vs]:
                    try:
                        a = [E.raw(x) for x in (v.get("init") or {}).get("c", ()) if x is not None and x["k"] != "CXXDefaultArgExpr"]
                    except Unknown:
                        c.note(f"{q}: registration arguments not evaluated")
                        continue
                    if len(a) == 2:
                        keys.append(("pair", tuple(a)))
                        part = a[1].split(":")[-1]
                        c.ob("unique", part.replace("_", "") in last(q).lower(), where, f"{q}:participant",
                             f"{q} is registered for the participant {a[1]!r}", f"{q} for {a}")
            else:
                for what in ("name", "extension"):
                    nf = P.byname.get(q + "::" + what)
                    s = literal(P, nf[0]) if nf else None
                    if what == "name" and not nf:
                        c.ob("unique", False, where, f"{q}:name", f"{q} declares no name")
                    if s is not None:
                        keys.append((what, s))
            for k in keys:
                c.ob("unique", bool(k[1]) and k not in seen and all(k[1] if isinstance(k[1], tuple) else [1]), where, f"{q}:{k[0]}",
                     f"{k[0]} {k[1]!r} of {q} is {'empty' if not k[1] else 'also used by ' + seen.get(k, '')}", f"{q}: {k[1]!r}")
                seen.setdefault(k, q)

    # ---------------------------------------------------------------- the registrars
    c.rule("registrar", "a registration object registers its own class under its own name, in the order the factory expects", 8)
    feeds = {}     # factory class -> {what: set(fields)}
    for f in lib:
        cl = last(f.cls or "")
        if f.kind != "ctor" or cl not in BASE:
            continue
        made, named = None, {}
        target = None
        for n in f.calls():
            tg = [t for t in P.targets(n) if re.match(r"register", t.short)]
            if not tg:
                continue
            target = tg[0]
            pidx = {p["id"]: i for i, p in enumerate(f.params)}
            for i, a in enumerate(call_args(f, n)):
                if a is None:
                    continue
                for x in wk(f, a):
                    q = x.get("f") or (x.get("d") or {}).get("n") or x.get("m") or ""
                    if x["k"] in CALLS and last(q) in ("name", "extension"):
                        named[i] = (last(q), q.rsplit("::", 1)[0])
                    elif x["k"] in ("DeclRefExpr", "MemberExpr") and last(q) == "RuleName":
                        named[i] = ("name", q.rsplit("::", 1)[0])
                    elif x["k"] == "DeclRefExpr" and (x.get("d") or {}).get("id") in pidx:
                        named[i] = ("param", pidx[x["d"]["id"]])
                    for l in P.lambdas(x):
                        for y in l.nodes.values():
                            if y["k"] == "CXXNewExpr":
                                made = l.type(y).rstrip("* ")
                            elif y["k"] in CALLS and last(y.get("f", "")) in ("make_unique", "make_shared") and y.get("fta"):
                                made = y["fta"][0]
        if target is None:
            c.note(f"{f.loc()}: registration call not recognised")
            continue
        cls = {last(v[1]) for v in named.values() if v[0] != "param"}
        ok = made is None or all(x == last(made) for x in cls)
        c.ob("registrar", ok, f.loc(), f"{f.name}:{made}", f"{cl} creates {made} under the name of {sorted(cls)}", f"{cl}<{made}>")
        # what the factory does with each argument
        G = F.graph(target)
        for i, (what, _) in named.items():
            if i >= len(target.params):
                continue
            pn = target.params[i]["n"]
            if what == "param":
                ok2 = f.params[_]["n"] == pn or len({p["n"] for p in f.params} & {p["n"] for p in target.params}) == 0
                c.ob("registrar", ok2, f.loc(), f"{cl}:{f.params[_]['n']}", f"{cl} passes {f.params[_]['n']} as {pn}")
                continue
            fl = set()
            for n in target.nodes.values():
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]" and root_var(target, n["c"][2]) == target.params[i]["id"]:
                    b = unwrap(target, n["c"][1])
                    fl.add(last(b.get("m", "")) if b is not None else "")
                elif n["k"] in CALLS and last(n.get("f", "")) in ("insert", "emplace", "insert_or_assign", "at") and call_obj(target, n) is not None:
                    a0 = [a for a in call_args(target, n) if a is not None][:1]
                    if a0 and any((y.get("d") or {}).get("id") == target.params[i]["id"] for y in wk(target, a0[0])):
                        b = unwrap(target, call_obj(target, n))
                        fl.add(last(b.get("m", "")) if b is not None else "")
            fl.discard("")
            if fl:
                feeds.setdefault(target.cls, {}).setdefault(what, set()).update(fl)
                c.ob("registrar", True, target.loc(), f"{target.name}:{pn}", "", f"{what} -> {sorted(fl)}")
            else:
                used = any(x[0] == "tf" for x in G.reach([("v", target.params[i]["id"])]))
                c.ob("registrar", used, target.loc(), f"{target.name}:{pn}", f"{target.name} does not store the {what}")

    # ---------------------------------------------------------------- look-up
    c.rule("lookup", "creating by name looks in the table the name was stored in, with the name that was asked for, and raises the documented error if there is none", 5)
    facs = {f.cls for f in lib if f.cls and re.search(r"Factory$", f.cls) and f.short == "instance"}
    for f in lib:
        if f.cls not in facs or not f.short.startswith("create") or f.kind != "method":
            continue
        fwd = [t for n in f.calls() for t in P.targets(n) if t.cls == f.cls and t.short.startswith("create")]
        if fwd:
            continue
        if "vector" in f.ret():
            continue      # selections by expression: V01
        finds = [n for n in f.calls() if last(n.get("f", "")) in ("find", "at", "count") and call_obj(f, n) is not None and
                 re.search(r"registry|\bmap<", last(unwrap(f, call_obj(f, n)).get("m", "")).lower() + " " + f.type(call_obj(f, n)))]
        if not finds:
            c.note(f"{f.loc()}: look-up not recognised, undecided")
            continue
        what = "extension" if "xtension" in f.short else "name"
        fields = {last(unwrap(f, call_obj(f, n)).get("m", "")) for n in finds} - {""}
        want = feeds.get(f.cls, {}).get(what)
        if want and fields:
            c.ob("lookup", bool(fields & want), f.loc(), f"{f.name}:table", f"{f.name} looks up the {what} in {sorted(fields)}, but it is stored in {sorted(want)}")
        G = F.graph(f)
        keyp = [p for p in f.params if "basic_string" in f.ptype(p) and "map<" not in f.ptype(p)]
        for p in keyp:
            ok = any(("e", f.id, f.node(a)["i"]) in G.reach([("v", p["id"])]) for n in finds for a in call_args(f, n) if a is not None)
            c.ob("lookup", ok, f.loc(), f"{f.name}:{p['n']}", f"{f.name} does not look for the {p['n']} it was given")
        for n in finds:
            for a in call_args(f, n):
                mp = [x for x in wk(f, a) if x["k"] in CALLS and last(x.get("f", "")) == "make_pair"]
                for x in mp:
                    order = [root_var(f, y) for y in call_args(f, x)]
                    ids = [p["id"] for p in f.params]
                    idx = [ids.index(v) for v in order if v in ids]
                    c.ob("lookup", idx == sorted(idx), f.loc(n), f"{f.name}:order", f"{f.name} swaps the parts of the name it looks for")
        # normal exits only for names that were found
        # a definition of the iterator by a later look-up drops the fact, so the facts at the exits are the ones that count
        rets = [n for n in f.all("ReturnStmt")]
        thr = True
        if any(last(n["f"]) != "at" for n in finds):
            for n in rets:
                st = P.state_at(f, n)
                if st is None:
                    continue
                ok = any(x[0] == "isend" and not x[2] or x[0] in ("has", "minsize") and x[2] for x in st) or \
                    any(x[0] in ("eq", "true", "cmp") and re.search(r"\.(end|count|find)\(", x[1]) and
                        (not x[2] if x[0] == "eq" else True) for x in st)
                thr = thr and ok
            p = escape(P, f, None, lambda x: x["k"] == "ReturnStmt")
            thr = thr and p is None
        c.ob("lookup", thr, f.loc(), f"{f.name}:absent", f"{f.name} returns normally although nothing is registered under the name", f"{f.name}")
    for f in lib:
        if f.cls in facs and f.short.startswith("available"):
            what = "extension" if "xtension" in f.short else "name"
            G = F.graph(f)
            flds = {last(x.get("m", "")) for x in f.all("MemberExpr") if last(x.get("m", "")).lower().endswith(("registry_", "registry")) or
                    last(x.get("m", "")) in feeds.get(f.cls, {}).get(what, ())}
            want = feeds.get(f.cls, {}).get(what)
            if want and flds:
                c.ob("lookup", bool(flds & want), f.loc(), f"{f.name}:list", f"{f.name} lists {sorted(flds)} instead of {sorted(want)}")

    # ---------------------------------------------------------------- storing
    c.rule("stored", "a registration is stored unless the name is empty or taken", 3)
    for f in lib:
        if f.cls not in facs or not re.match(r"register", f.short):
            continue
        names = {p["n"]: p["id"] for p in f.params if "basic_string" in f.ptype(p)}
        for n in f.nodes.values():
            st = None
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]" or n["k"] in CALLS and last(n.get("f", "")) in ("insert", "emplace", "insert_or_assign", "try_emplace"):
                st = P.state_at(f, n)
            if st is None:
                continue
            bad = [x for x in st if x[0] == "empty" and x[2] and any(re.search(r"(?<![\w.>])%s\b" % re.escape(a), x[1]) for a in names)]
            c.ob("stored", not bad, f.loc(n), f"{f.name}:store", f"{f.name} stores a creator only if the name is empty")

    # ---------------------------------------------------------------- the name asked for reaches the factory
    c.rule("asked", "a public function that takes the name of what is created hands it to the factory", 2)
    for f in lib:
        if f.cls in facs or f.flag("lambda") or f.kind in ("ctor", "dtor") or f.loc().split(":")[0].endswith("Factory.cpp"):
            continue
        cs = [(n, t) for n in f.calls() for t in P.targets(n) if t.cls in facs and t.short.startswith("create") and t.kind == "method"]
        for n, t in cs:
            G = F.graph(f)
            for p in f.params:
                if "basic_string" not in f.ptype(p):
                    continue
                same = [i for i, q in enumerate(t.params) if q["n"] == p["n"]]
                got = G.reach([("v", p["id"])])
                args = call_args(f, n)
                hit = [i for i, a in enumerate(args) if a is not None and ("e", f.id, f.node(a)["i"]) in got]
                if same:
                    c.ob("asked", hit == same or set(same) <= set(hit), f.loc(n), f"{f.name}:{p['n']}", f"{f.name} does not create by the {p['n']} it was given", f"{f.name}({p['n']})")
                elif re.search(r"name$", p["n"], re.I) and not re.search(r"file", p["n"], re.I):
                    c.ob("asked", bool(hit), f.loc(n), f"{f.name}:{p['n']}", f"{f.name} ignores the {p['n']} it was given")
    # several overloads tell by a name or by a file name: the one with more strings uses the last of them
    byname = {}
    for f in lib:
        if not f.cls and any(t.cls in facs and t.short.startswith("create") for n in f.calls() for t in P.targets(n)):
            byname.setdefault(f.name, []).append(f)
    for q, l in byname.items():
        for f in l:
            sp = [p for p in f.params if re.match(r"(const )?std::(__cxx11::)?basic_string<[^<>]*(<[^<>]*>[^<>]*)*> ?&?$|(const )?std::string ?&?$", f.ptype(p))]
            if len(sp) < 2:
                continue
            G = F.graph(f)
            for n in f.calls():
                for t in P.targets(n):
                    if t.cls in facs and t.short.startswith("create"):
                        hit = any(("e", f.id, f.node(a)["i"]) in G.reach([("v", sp[-1]["id"])]) for a in call_args(f, n) if a is not None)
                        c.ob("asked", hit, f.loc(n), f"{f.name}:{sp[-1]['n']}", f"{f.name} ignores the {sp[-1]['n']} it was given", f"{f.name}({sp[-1]['n']})")

    for f in lib:
        if f.cls or not f.short.startswith("supported"):
            continue
        for n in f.calls():
            for t in P.targets(n):
                if t.cls in facs and t.short.startswith("available"):
                    ok = ("xtension" in f.short) == ("xtension" in t.short) and all((k in f.short) == (k in t.name) for k in ("Parser", "Writer") if "Parser" in f.short or "Writer" in f.short)
                    c.ob("asked", ok, f.loc(n), f"{f.name}:list", f"{f.name} lists {t.name}()", f"{f.name}: {t.short}")

    # ---------------------------------------------------------------- traffic rules know what they were created for
    c.rule("configured", "traffic rules report the location and the participant they were created for", 4)
    asks = {}
    for f in lib:
        if f.cls and last(f.cls) == "TrafficRules" and f.kind == "method" and not f.params:
            ks = set()
            for g in [f] + [t for n in f.calls() for t in P.targets(n)]:
                for n in f.nodes.values():
                    if n["k"] == "StringLiteral":
                        ks.add(n["v"])
            if len(ks) == 1:
                k = next(iter(ks))
                asks[f.short] = k
                c.ob("configured", k == f.short, f.loc(), f"{f.name}:key", f"{f.name} answers with the entry {k!r}", f"{f.name}: {k!r}")
    for f in lib:
        if f.cls and last(f.cls) == "TrafficRulesFactory" and f.short == "create":
            G = F.graph(f)
            sets = {}
            for n in f.nodes.values():
                key = None
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
                    l = unwrap(f, n["c"][1])
                    if l is not None and l["k"] == "CXXOperatorCallExpr" and l.get("op") == "[]":
                        key, val = [x["v"] for x in wk(f, l["c"][2]) if x["k"] == "StringLiteral"], n["c"][2]
                elif n["k"] in CALLS and last(n.get("f", "")) in ("insert", "emplace", "insert_or_assign"):
                    key, val = [x["v"] for x in wk(f, n) if x["k"] == "StringLiteral"], n
                if key:
                    sets[key[0]] = (n, {y["d"]["n"] for y in wk(f, val) if y["k"] == "DeclRefExpr" and y["d"]["k"] == "Parm"})
            for m, k in sorted(asks.items()):
                if not sets:
                    c.note("configuration entries not recognised, undecided")
                    break
                n, v = sets.get(k, (None, set()))
                c.ob("configured", n is not None and m in v, f.loc(n) if n else f.loc(), f"{f.name}:{k}", f"the entry {k!r} that {m}() reads is set from {sorted(v) or 'nothing'}", f"{k} = {sorted(v)}")
