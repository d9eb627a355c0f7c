"""T01: transitions and lane changes are only allowed between passable, adjoining elements."""
import re
from ..core import *


def derived(P, base):
    """names of classes derived (transitively) from base, including base"""
    r = {base}
    ch = True
    while ch:
        ch = False
        for rec in P.records.values():
            if rec["name"] not in r and any(b.get("n") in r for b in rec["bases"]):
                r.add(rec["name"])
                ch = True
    return r


def elem(t):
    return bool(re.search(r"\blanelet::Const(Lanelet|Area)\b", t)) and "vector" not in t


def run(c):
    P = c.program("traffic_rules")
    c.rule("both-ends", "every return of a transition query that can yield true is dominated by positive answers for both "
           "elements on their own", 12)
    c.rule("adjoin", "every return of a transition query that can yield true is dominated by a geometric/topological "
           "adjacency test relating both elements", 6)
    c.rule("override-set", "all ordered pairs of lanelet/area have a transition query", 4)
    rules = derived(P, "lanelet::traffic_rules::TrafficRules")
    seen = set()
    nf = 0
    for f in P.lib():
        if f.cls not in rules or f.short not in ("canPass", "canChangeLane") or f.kind != "method":
            continue
        if len(f.params) != 2 or not all(elem(f.ptype(p)) for p in f.params):
            continue
        nf += 1
        sig = f.short + "(" + ",".join("area" if "Area" in f.ptype(p) else "lanelet" for p in f.params) + ")"
        seen.add(sig)
        a, b = ("v:" + p["id"] for p in f.params)
        for i, (r, st) in enumerate(P.returns(f)):
            e = r["c"][0] if r.get("c") else None
            u = unwrap(f, e)
            if is_bool(u, False):
                continue
            fs = set(st) | P.assume(f, e, True)
            for v, nm in ((a, f.params[0]["n"]), (b, f.params[1]["n"])):
                ok = any(x[0] == "true" and x[2] and re.fullmatch(r"this\.canPass\(" + re.escape(v) + r"\)", x[1]) for x in fs)
                # a transition query of the same class that is itself subject to this rule implies both ends
                ok = ok or any(x[0] == "true" and x[2] and x[1] in (f"this.canPass({a},{b})", f"this.canChangeLane({a},{b})") for x in fs
                               if x[1] != f"this.{f.short}({a},{b})" or len(f.params) != 2)
                c.ob("both-ends", ok, f.loc(r), f"{f.name}|{sig}|{nm}",
                     f"{sig} can return true without having established that '{nm}' may be used itself")
            # adjacency: a positive fact about both elements that is not a passability answer
            def adj(x):
                return x[2] and a in x[1] and b in x[1] and x[0] in ("true", "eq") and not re.fullmatch(r"this\.\w+\(.*\)", x[1])
            ok = any(adj(x) for x in fs) or P.holds(f, r, adj) or P.implies(f, e, True, adj)
            c.ob("adjoin", ok, f.loc(r), f"{f.name}|{sig}|adjoin",
                 f"{sig} can return true without an adjacency test between both elements")
    for s in ("canPass(lanelet,lanelet)", "canPass(lanelet,area)", "canPass(area,lanelet)", "canPass(area,area)",
              "canChangeLane(lanelet,lanelet)"):
        if s not in seen:
            from ..facts import AnalysisBroken
            raise AnalysisBroken(f"no implementation of {s} found")
        c.ob("override-set", True, "traffic_rules", s, "")
    c.analysed["transition_queries"] = nf

