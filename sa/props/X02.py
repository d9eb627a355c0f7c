"""X02: no library error can leave a function that is declared not to throw, or a destructor."""
from ..core import *
from ..throws import NullArgs, Throws

GROUPS = ("core", "io", "projection", "traffic_rules", "routing", "matching", "validation", "python", "wit")
BASE = "lanelet::LaneletError"


def run(c):
    P = c.program(*GROUPS)
    c.rule("noexcept", "no exception derived from lanelet::LaneletError can leave a function declared noexcept (explicitly or as destructor), "
           "along any chain of calls", 60)
    T = Throws(P, None, NullArgs(P).skip)
    seen = set()
    n = 0
    for f in P.lib():
        if f.flag("dep"):
            continue
        if not (f.flag("noexcept") or f.kind == "dtor"):
            continue
        n += 1
        bad = [(t, p) for t, p in T.esc.get(f.id, {}).items() if T.isa(t, BASE)]
        key = f.name
        if (key, f.loc(), bool(bad)) in seen:
            continue
        seen.add((key, f.loc(), bool(bad)))
        c.ob("noexcept", not bad, f.loc(), key,
             f"{f.name} is declared not to throw but " + "; ".join(f"{t} can reach it: {T.path(p)}" for t, p in bad[:2]), key)
    c.analysed["functions_with_escaping_errors"] = sum(1 for e in T.esc.values() if any(T.isa(t, BASE) for t in e))
    c.note("NullptrError raised because of a null argument is not followed where the argument is an element handed out by a container "
           "(layers never hold null pointers)")
