"""Path queries on control flow graphs with the facts that hold on the edges."""
from .core import *


def edge_facts(P, f, b, si):
    c = f.__dict__.setdefault("_edgefacts", {})
    if (b, si) in c:
        return c[(b, si)]
    blk = f.cfg["blocks"][b]
    out = set()
    if len(blk["s"]) == 2 and "cond" in blk and blk.get("t") not in ("SwitchStmt", "CXXTryStmt"):
        cn = f.nodes.get(blk["cond"])
        if cn is not None:
            out = set(P.assume(f, P._cond(f, blk, cn), si == 0))
    c[(b, si)] = out
    return out


def throws(f, blk):
    return blk.get("noret") or any(isinstance(e, int) and f.nodes.get(e, {}).get("k") == "CXXThrowExpr" for e in blk["e"])


def escape(P, f, start, stop, prune=None, goals=None):
    """Is there a path from start (node, or None for the entry) to the normal exit (or a block in goals) on which no
    element satisfies stop(node)? prune(facts) cuts edges. Returns the list of blocks or None."""
    cfg = f.cfg
    B = cfg["blocks"]
    if start is None:
        b0, i0 = cfg["entry"], 0
    elif isinstance(start, int):
        b0, i0 = start, 0
    else:
        w = P.where(f, start)
        if w is None:
            return None
        b0, i0 = w[0], w[1] + 1
    sub = {}

    def blocked(b, i):
        for e in B[b]["e"][i:]:
            if isinstance(e, int):
                n = f.nodes.get(e)
                if n is not None and stop(n):
                    return True
        return False
    seen = set()
    st = [(b0, i0, (b0,))]
    while st:
        b, i, path = st.pop()
        if blocked(b, i):
            continue
        if b == cfg["exit"] or (goals and b in goals and i == 0 and len(path) > 1):
            return path
        if throws(f, B[b]):
            continue
        for si, s in enumerate(B[b]["s"]):
            if s is None or s in seen:
                continue
            if prune and prune(edge_facts(P, f, b, si)):
                continue
            seen.add(s)
            st.append((s, 0, path + (s,)))
    return None


def all_paths(P, f, start, stop, prune=None, goals=None):
    return escape(P, f, start, stop, prune, goals) is None


def loops(f):
    for n in f.all("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt"):
        yield n


def loop_head(P, f, loop):
    """block whose terminator is the loop condition"""
    for b, blk in f.cfg["blocks"].items():
        if blk.get("ti") == loop["i"]:
            return b
    return None


def loop_body_entry(P, f, loop):
    h = loop_head(P, f, loop)
    if h is None:
        return None
    s = f.cfg["blocks"][h]["s"]
    return s[0] if s else None


def body_of(f, loop):
    c = [x for x in loop.get("c", ()) if x is not None]
    if not c:
        return None
    return f.node(c[0] if loop["k"] == "DoStmt" else c[-1])


def early_exits(f, loop):
    """statements that leave a loop before it has seen every element"""
    b = body_of(f, loop)
    if b is None:
        return
    st = [(b, False)]
    while st:
        n, inner = st.pop()
        n = f.node(n)
        k = n["k"]
        if k == "ReturnStmt" or k == "GotoStmt" or (k == "BreakStmt" and not inner):
            yield n
        for x in kids(n):
            st.append((x, inner or k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt")))
