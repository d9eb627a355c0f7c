"""C06: the two indices of a hybrid map (by name, by key) always describe the same entries."""
import re
from ..core import *
from ..paths import *
from ..facts import AnalysisBroken
from ..feeds import Feeds, last
from .V02 import wk
from .E01 import wkraw, enum_names
from .V02 import Eval

CLS = "lanelet::HybridMap"
HDR = "HybridMap.h"
INS = ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint", "operator[]", "merge")
INSERTED = re.compile(r"^this\.m_\.(insert|emplace|try_emplace|insert_or_assign|emplace_hint|find)(\.first)?$")
TABLES = (("lanelet::AttributeNamesString::Map", "lanelet::AttributeName", "lanelet2_core/include/lanelet2_core/Attribute.h"),
          ("lanelet::RoleNameString::Map", "lanelet::RoleName", "lanelet2_core/include/lanelet2_core/primitives/RegulatoryElement.h"))


def run(c):
    P = c.program("wit_hybrid")
    ms = [f for f in P.lib() if f.cls == CLS and not f.flag("dep") and f.cfg]
    if len(ms) < 30:
        raise AnalysisBroken("only %d functions of HybridMap found" % len(ms))
    F = Feeds(P, inline=lambda g: not g.flag("dep") and (g.cls == CLS or g.loc().split(":")[0].endswith(HDR)))
    F2 = Feeds(P, inline=lambda g: False)

    c.rule("insert-updates-key", "whatever inserts an entry by name also enters it under its key, if its name has one", 4)
    c.rule("erase-clears-key", "before or after an entry is removed by name, its key entry is reset to the end of the map", 4)
    c.rule("copy-rebuilds-keys", "a copied or moved map's key entries refer to its own entries", 6)
    c.rule("key-in-range", "the key table is only accessed where it is large enough and is filled with end iterators", 8)
    c.rule("find-by-key", "a look-up by key returns the key's entry whenever the table has one", 6)
    c.rule("access", "access by name or key uses the entry of exactly this name or key", 12)
    c.rule("lookup-exact", "translation between names and keys compares complete names and keys", 4)
    c.rule("names", "every key has exactly one name, which is its own", 20)
    c.rule("hidden", "the two indices can only be changed by the map itself", 2)

    sig = lambda f: "%s(%s)%s" % (f.short, ", ".join(simple(f.ptype(p)) for p in f.params), " const" if f.flag("const") else "")
    inst = lambda f: "roles" if "RoleName" in f.id else "attributes"

    def terms(x, n):
        return F.term(x["f"], n, x["env"])

    def objterm(x):
        o = call_obj(x["f"], x["call"])
        if o is None and x["call"].get("op") == "=" and x["call"].get("c"):
            o = x["call"]["c"][1]
        return terms(x, o) if o is not None else set()

    def in_v(x):
        o = call_obj(x["f"], x["call"])
        if o is None and x["argn"] and last(x["call"].get("f", "")) in ("replace", "fill"):
            return any("this.v_" in t for t in terms(x, x["argn"][0]) | F.elems(x["f"], x["argn"][0], x["env"]))
        ts = objterm(x)
        if any(t.startswith("this.v_") for t in ts) or any("this.v_[]" in t for t in ts):
            return True
        if o is not None:
            for y in wk(x["f"], o):
                if y["k"] in CALLS and last(y.get("f", "")) in ("find", "find_if", "begin") and call_args(x["f"], y) or y["k"] == "DeclRefExpr":
                    for z in (call_args(x["f"], y)[:1] if y["k"] in CALLS else [y]):
                        if any("this.v_" in t for t in F.term(x["f"], z, x["env"]) | F.elems(x["f"], z, x["env"])):
                            return True
        return False

    def mut(f, n):
        return n["k"] in CALLS and (last(n.get("f", "")) in INS + ("erase", "clear", "swap", "extract", "operator=") or n.get("op") in ("=", "[]")) and "std::map" in (n.get("f") or "")

    def upd(f, n):
        q = n.get("f") or ""
        return n["k"] in CALLS and (n.get("op") == "=" and ("iterator" in q or "vector" in q) or
                                    last(q) in ("resize", "clear", "assign", "fill", "replace", "push_back", "emplace_back") and ("std::vector" in q or q in ("std::fill", "std::replace")))

    def notfound(facts):
        for y in facts:
            if y[0] == "isend" and y[2] and re.search(r"findKey\(|find\(this\.v_|find_if\(", y[1]):
                return True
            if y[0] == "eq" and y[2] and re.search(r"(findKey|find_if|find)\(.*end\(|end\(.*(findKey|find_if|find)\(", y[1]):
                return True
        return False

    def notinserted(facts):
        return notfound(facts) or any(y[0] == "true" and y[2] is False and re.search(r"m_\.\w+\(.*\)\.second$", y[1]) for y in facts)

    def other(facts):
        """the looked-at key entry is a different one"""
        return notfound(facts) or any(y[0] == "eq" and y[2] is False and not re.search(r"end\(\)(==|$)", y[1]) for y in facts) or \
            any(y[0] == "cmp" and y[2] and re.search(r"v_\.size\(\)(<=?[^#=]|<=#0|<#1$)", y[1]) for y in facts)

    def diverge(x, y):
        a, b = x["outer"], y["outer"]
        i = 0
        while i < min(len(a), len(b)) and a[i][0].id == b[i][0].id and a[i][1]["i"] == b[i][1]["i"]:
            i += 1
        if i >= min(len(a), len(b)) or a[i][0].id != b[i][0].id:
            return None
        return i

    def loop_of(f, n, without):
        ls = [l for l in loops(f) if n["i"] in subtree_ids(body_of(f, l) or {"i": -1, "c": []})]
        ls = [l for l in ls if without["i"] not in subtree_ids(body_of(f, l) or {"i": -1, "c": []})]
        return max(ls, key=lambda l: len(subtree_ids(l))) if ls else None

    def deeper(y, i, prune):
        return [s for s in (F.skip(g, m, prune) for g, m in y["outer"][i + 1:]) if s]

    def anchor(f, n, x):
        """node that stands for n when loops around it, that do not contain x, count as executed"""
        l = loop_of(f, n, x)
        if l is None:
            return n, None
        h = loop_head(P, f, l)
        w = F.partial(f, l) or next(("the loop at line %d is left early" % l["l"] for e in early_exits(f, l)), None)
        if not w:
            b = loop_body_entry(P, f, l)
            if b is not None and escape(P, f, b, lambda z: z["i"] == n["i"], other, {h}):
                w = "an iteration of the loop at line %d does not get to line %d" % (l["l"], n["l"])
        cn = f.nodes.get(f.cfg["blocks"][h].get("cond")) if h is not None else None
        return (cn or n), w

    def follows(x, y, prune):
        """None if y is performed on every path after x, else why not"""
        i = diverge(x, y)
        if i is None:
            return "not in a common function"
        g, a, b = x["outer"][i][0], x["outer"][i][1], y["outer"][i][1]
        b2, w = anchor(g, b, a)
        if w:
            return w
        if escape(P, g, a, lambda z: z["i"] == b2["i"], prune):
            return "a path from line %d does not get to line %d" % (a["l"], b["l"])
        d = deeper(y, i, prune)
        return d[0] if d else None

    def precedes(x, y, prune):
        i = diverge(x, y)
        if i is None:
            return "not in a common function"
        g, a, b = x["outer"][i][0], x["outer"][i][1], y["outer"][i][1]
        b2, w = anchor(g, b, a)
        if w:
            return w
        if reach_node(P, g, a, lambda z: z["i"] == b2["i"], prune):
            return "a path gets to line %d without line %d" % (a["l"], b["l"])
        d = deeper(y, i, prune)
        return d[0] if d else None

    reported = {}

    def ob(rule, ok, f, n, key, msg, sample=None):
        k = (rule, key, inst(f))
        if k in reported and (reported[k] or not ok) and reported[k] == ok:
            return
        reported[k] = ok
        c.ob(rule, ok, f.loc(n) if n is not None else f.loc(), "%s:%s" % (inst(f), key), msg, sample)

    for f in sorted(ms, key=lambda f: (f.loc(), f.id)):
        if f.d.get("access") == "private":
            continue
        xs = F.feeds(f, lambda g, n: mut(g, n) or upd(g, n))
        ms_ = [x for x in xs if mut(x["f"], x["call"]) and any(t == "this.m_" for t in objterm(x))]
        ys = [x for x in xs if upd(x["f"], x["call"])]
        vs = [y for y in ys if in_v(y)]
        for x in ms_:
            nm = last(x["call"].get("f", ""))
            if nm in INS:
                good, why = False, "there is no such entry"
                for y in vs:
                    if y["call"].get("op") != "=" or not any(INSERTED.match(t) for t in terms(y, y["argn"][-1])):
                        continue
                    w = follows(x, y, notinserted)
                    if w is None:
                        ix = index_of(P, y["f"], y["call"])
                        if ix is None:
                            c.note("%s: index at %s not classified" % (sig(f), y["f"].loc(y["call"])))
                        elif not index_ok(ix):
                            w = "line %d enters it under %s" % (y["call"]["l"], ix)
                    if w is None:
                        good = True
                        break
                    why = w
                ob("insert-updates-key", good, f, x["outer"][0][1], sig(f), "%s inserts an entry by name that does not get its key entry: %s" % (sig(f), why),
                   {"function": sig(f), "insertion": x["f"].loc(x["call"])})
            elif nm == "erase":
                good, why = False, "there is no reset"
                for y in vs:
                    nmy = last(y["call"].get("f", ""))
                    if nmy == "replace":
                        ok = any(t == "this.m_.end" for t in terms(y, y["argn"][3])) and terms(y, y["argn"][2]) & terms(x, x["argn"][0])
                    elif y["call"].get("op") == "=":
                        ok = any(t == "this.m_.end" for t in terms(y, y["argn"][-1])) and compared(F, y, terms(x, x["argn"][0]))
                    else:
                        ok = False
                    if not ok:
                        continue
                    w = precedes(x, y, other)
                    if w is not None:
                        w = follows(x, y, other)
                    if w is None:
                        good = True
                        break
                    why = w
                ob("erase-clears-key", good, f, x["outer"][0][1], sig(f), "%s removes an entry by name that stays reachable by its key: %s" % (sig(f), why),
                   {"function": sig(f), "removal": x["f"].loc(x["call"])})
            elif nm == "clear":
                good, why = False, "the key entries are kept"
                for y in vs:
                    nmy = last(y["call"].get("f", ""))
                    ok = nmy == "clear" or nmy == "resize" and const_int(y["f"], y["f"].node(y["argn"][0])) == 0 or \
                        nmy in ("assign", "fill", "operator=") and (any(t == "this.m_.end" for a in y["argn"][1:] for t in terms(y, a)) or
                                                                    any(t.startswith("new:") for a in y["argn"][-1:] for t in terms(y, a)))
                    w = follows(x, y, None) and precedes(x, y, None) if ok else why
                    if ok and w is None:
                        good = True
                        break
                    why = w
                ob("erase-clears-key", good, f, x["outer"][0][1], sig(f), "%s removes all entries by name, but they stay reachable by key: %s" % (sig(f), why),
                   {"function": sig(f), "removal": x["f"].loc(x["call"])})
            elif nm not in ("operator=",) and x["call"].get("op") != "=":
                c.note("%s: %s at %s not classified" % (sig(f), nm, x["f"].loc(x["call"])))
        # ---------------------------------------------------------- copy and move
        par = f.ptype(f.params[0]) if len(f.params) == 1 else ""
        if "HybridMap<" in par and (f.kind == "ctor" or f.short == "operator="):
            move = "&&" in par
            inits = {last(i.get("m") or ""): i for i in f.d.get("inits", ())}

            def whole(m):
                """[(terms, node)] of what a member is set to"""
                out = []
                i = inits.get(m)
                if i is not None and isinstance(i.get("e"), dict):
                    out.append((F.term(f, i["e"], {}), None))
                for x in xs:
                    if x["call"].get("op") == "=" and any(t == "this." + m for t in objterm(x)):
                        out.append((terms(x, x["argn"][-1]), x))
                return out
            mset = [t for t, x in whole("m_") if "P0.m_" in t]
            rebuilt = [x for x in vs if x["call"].get("op") == "=" and any(INSERTED.match(t) for t in terms(x, x["argn"][-1]))]
            if not mset:
                ins = [x for x in ms_ if last(x["call"].get("f", "")) in INS]
                if ins:
                    continue    # built entry by entry, insert-updates-key covers it
                ob("copy-rebuilds-keys", False, f, None, sig(f), "%s does not take over the entries" % sig(f), {"function": sig(f)})
                continue
            vset = [(t, x) for t, x in whole("v_")]
            loopfix = [x for x in xs if x["call"].get("op") == "=" and any(t == "this.m_.find" for t in terms(x, x["argn"][-1]))]
            good, why = False, "its key entries are left as they were"
            for t, x in vset:
                if "P0.v_" in t and move:
                    why = "key entries at the end of the source map are not redirected to the end of this map"
                    for y in vs:
                        if (y["call"].get("op") == "=" or last(y["call"].get("f", "")) == "replace") and any(u == "this.m_.end" for a in y["argn"] for u in terms(y, a)):
                            if last(y["call"].get("f", "")) == "replace":
                                ok = any(u == "P0.m_.end" for u in terms(y, y["argn"][2]))
                            else:
                                ok = compared(F, y, {"P0.m_.end"})
                            sk = F.skips(y, other)
                            sk = [s for s in sk if not loop_ok(P, F, s)]
                            if ok and not sk and (x is None or follows(x, y, other) is None):
                                good = True
                            elif sk:
                                why = "; ".join(s[2] for s in sk)
                elif "P0.v_" in t:
                    why = "its key entries refer to the entries of the map it was copied from"
                else:
                    why = "its key entries are not the entries of the same name"
                if not good and not (move and "P0.v_" in t):
                    for y in loopfix:
                        fi = next((z for z in wk(y["f"], y["argn"][-1]) if z["k"] in CALLS and last(z.get("f", "")) == "find"), None)
                        if fi is None:
                            fi = resolve_find(P, F, y)
                        fa = F.term(y["f"], call_args(y["f"], fi)[0], y["env"]) if fi is not None else set()
                        if not any(re.match(r"P0\.v_\[\]\.first$", u) for u in fa):
                            continue
                        ends = lambda facts: any(z[0] == "isend" and z[2] for z in facts)
                        sk = [s for s in F.skips(y, ends)]
                        if sk:
                            why = "; ".join(s[2] for s in sk)
                            continue
                        ia, ib = idx_keys(P, y["f"], y["f"].node(y["call"]["c"][1])), idx_keys(P, y["f"], fi) | idx_of_names(P, y["f"], fi)
                        if ia and ib and not (ia & ib):
                            why = "line %d enters an entry under the key of another" % y["call"]["l"]
                            continue
                        if x is not None:
                            mx = next((z for z in xs if z["call"].get("op") == "=" and any(u == "this.m_" for u in objterm(z))), None)
                            if mx is not None and reach_node(P, f, x["outer"][0][1], lambda z, k=mx["outer"][0][1]["i"]: z["i"] == k, None):
                                why = "the key entries are looked up before the entries are copied"
                                continue
                        good = True
            if not good and rebuilt:
                for y in rebuilt:
                    if not [s for s in F.skips(y, notfound)]:
                        good = True
            ob("copy-rebuilds-keys", good, f, None, sig(f), "%s: %s" % (sig(f), why), {"function": sig(f)})

    # declared order of the members
    recs = P.recbyname.get(CLS) or []
    recs = recs if isinstance(recs, list) else [recs]
    for r in recs:
        names = [x["n"].split("::")[-1] for x in r.get("fields", ())]
        if "m_" in names and "v_" in names:
            uses = any("this.m_" in "".join(F.term(f, i["e"], {})) for f in ms if f.kind == "ctor" for i in f.d.get("inits", ()) if last(i.get("m") or "") == "v_" and isinstance(i.get("e"), dict))
            c.ob("copy-rebuilds-keys", names.index("m_") < names.index("v_"), HDR, "order", "the key entries are initialised before the entries they refer to", {"members": names})
            break
    for nm, what in (("HybridMap", "constructor"), ("operator=", "assignment")):
        for mv in (True, False):
            have = [f for f in ms if (f.kind == "ctor" if nm == "HybridMap" else f.short == nm) and len(f.params) == 1 and "HybridMap<" in f.ptype(f.params[0]) and
                    ("&&" in f.ptype(f.params[0])) == mv and not f.flag("defaulted") and not f.flag("implicit")]
            byval = [f for f in ms if f.short == nm and len(f.params) == 1 and "HybridMap<" in f.ptype(f.params[0]) and "&" not in f.ptype(f.params[0])]
            c.ob("copy-rebuilds-keys", bool(have) or bool(byval), HDR, "%s %s" % ("move" if mv else "copy", what),
                 "the %s %s is memberwise: key entries of the copy refer to another map" % ("move" if mv else "copy", what), {"operation": what})

    # ---------------------------------------------------------- bounds of the key table
    for f in sorted(ms, key=lambda f: (f.loc(), f.id)):
        for n in f.calls():
            if n.get("op") == "[]" and "std::vector" in (n.get("f") or "") and P.key(f, n["c"][1]) == "this.v_":
                K = P.key(f, n["c"][2])
                ks = {K} | resolve(P, f, n["c"][2])
                big = lambda facts: any(y[0] == "cmp" and y[2] and enough(y[1], ks) for y in facts)

                def grow(z):
                    if z["k"] in CALLS and last(z.get("f", "")) == "resize" and call_obj(f, z) is not None and P.key(f, call_obj(f, z)) == "this.v_":
                        s = {P.key(f, call_args(f, z)[0])} | resolve(P, f, call_args(f, z)[0])
                        return any(size_ok(a, ks) is not False for a in s)
                    return False
                lo = [l for l in loops(f) if n["i"] in subtree_ids(body_of(f, l) or {"i": -1, "c": []})]
                bad = reach_node(P, f, n, grow, big)
                ob("key-in-range", not bad, f, n, sig(f), "%s accesses the key table at %s where it may be too small" % (sig(f), sorted(ks)[0]), {"function": sig(f), "at": f.loc(n)})
            if last(n.get("f", "")) == "resize" and "std::vector" in (n.get("f") or "") and call_obj(f, n) is not None and P.key(f, call_obj(f, n)) == "this.v_":
                a = [x for x in call_args(f, n) if f.node(x)["k"] != "CXXDefaultArgExpr"]
                z = const_int(f, f.node(a[0])) == 0
                ok = z or len(a) == 2 and F.term(f, a[1], {}) == {"this.m_.end"}
                ob("key-in-range", ok, f, n, sig(f) + ":fill", "%s enlarges the key table with entries that are not the end of the map" % sig(f), {"function": sig(f), "at": f.loc(n)})

    # ---------------------------------------------------------- find / at / []
    for f in sorted(ms, key=lambda f: (f.loc(), f.id)):
        if not f.params:
            continue
        pt = f.ptype(f.params[0])
        byname = "string" in simple(pt)
        bykey = "AttributeName" in pt or "RoleName" in pt
        if not (byname or bykey) or len(f.params) != 1:
            continue
        if f.short == "find":
            if byname:
                fs = F2.feeds(f, lambda g, n: last(n.get("f", "")) in ("find", "lower_bound", "equal_range", "at", "upper_bound"))
                ok = any(last(x["call"]["f"]) in ("find", "lower_bound", "equal_range") and F2.args(x) == {"P0"} and "this.m_" in F2.term(f, call_obj(f, x["call"]), {}) for x in fs)
                ob("access", ok, f, None, sig(f), "%s does not look up its argument" % sig(f), {"function": sig(f)})
                continue
            K = "v:" + f.params[0]["id"]
            hit = [n for n in f.calls() if (n.get("op") == "[]" or last(n.get("f", "")) == "at") and "std::vector" in (n.get("f") or "")]
            if not hit:
                # delegates
                fs = F.feeds(f, lambda g, n: n.get("op") == "[]" and "std::vector" in (n.get("f") or ""))
                ob("find-by-key", bool(fs) and all(F.args(x) == {"P0"} for x in fs), f, None, sig(f), "%s does not look up the key's entry" % sig(f), {"function": sig(f)})
                continue
            for n in hit:
                ix = call_args(f, n)[0] if n.get("op") != "[]" else n["c"][2]
                ob("find-by-key", F.term(f, ix, {}) == {"P0"}, f, n, sig(f) + ":index", "%s returns the entry of another key" % sig(f), {"function": sig(f)})
            # the end is returned only if the table is too small
            for n in f.calls():
                if last(n.get("f", "")) in ("end", "cend") and call_obj(f, n) is not None and P.key(f, call_obj(f, n)) == "this.m_":
                    small = lambda facts: any(y[0] == "cmp" and y[2] and toosmall(y[1], K) for y in facts) or any(y[0] == "empty" and y[2] and "v_" in y[1] for y in facts)
                    bad = reach_node(P, f, n, lambda z: False, small)
                    ob("find-by-key", not bad, f, n, sig(f) + ":end", "%s reports no entry although the key may have one" % sig(f), {"function": sig(f)})
        elif f.short in ("at", "operator[]"):
            fs = F2.feeds(f, lambda g, n: last(n.get("f", "")) in ("find", "insert", "findValue", "findKey", "emplace", "try_emplace", "at", "operator[]") and
                          ("HybridMap" in n.get("f", "") or "ArrayView" in n.get("f", "") or "std::map" in n.get("f", "") or n["k"] == "CXXMemberCallExpr"))
            if not fs:
                c.note("%s: no look-up found" % sig(f))
                continue
            for x in fs:
                nm = last(x["call"]["f"])
                a = F2.args(x)
                if nm in ("insert", "emplace", "try_emplace"):
                    if not byname and not any(last(z["call"]["f"]) in ("findValue", "findKey") for z in fs):
                        c.note("%s: the name of the key at %s is not classified" % (sig(f), f.loc(x["call"])))
                        continue
                    if byname:
                        ok = any(t == "P0" for t in a)
                    else:
                        ok = any(re.search(r"findValue\(P0\)\.first$", t) for t in a) or any(re.match(r"\?\.first$", t) for t in a)
                        if ok and "?.first" in a:
                            ok = any(last(z["call"]["f"]) == "findValue" and F2.args(z) == {"P0"} for z in fs)
                    ob("access", ok, f, x["call"], sig(f) + ":" + nm, "%s inserts an entry under %s" % (sig(f), "|".join(sorted(a))), {"function": sig(f)})
                else:
                    ob("access", a == {"P0"}, f, x["call"], sig(f) + ":" + nm, "%s looks up %s" % (sig(f), "|".join(sorted(a))), {"function": sig(f)})
            for n, st in P.returns(f):
                ts = F2.term(f, n["c"][0], {})
                ok = all(t.endswith(".second") or t == "this.at" or t == "this.operator[]" for t in ts)
                ob("access", ok, f, n, sig(f) + ":result", "%s returns %s" % (sig(f), "|".join(sorted(ts))), {"function": sig(f)})
        elif f.short == "erase" and byname:
            fs = F2.feeds(f, lambda g, n: last(n.get("f", "")) == "find")
            ok = bool(fs) and all(F2.args(x) == {"P0"} for x in fs)
            ob("access", ok, f, None, sig(f), "%s does not look up its argument" % sig(f), {"function": sig(f)})

    # ---------------------------------------------------------- translation
    for f in P.lib():
        if f.short not in ("findKey", "findValue") or "detail" not in f.name or f.flag("dep"):
            continue
        part = "first" if f.short == "findKey" else "second"
        reach = [g for g in (P.funcs.get(x) if isinstance(x, str) else x for x in P.reach([f])) if g is not None and not g.flag("dep") and g.loc().startswith("lanelet2_core/")] + [f]
        partial = [n for g in reach for n in g.calls() if last(n.get("f", "")) in ("strncmp", "strncasecmp", "strcasecmp", "memcmp", "substr", "starts_with", "strstr", "strcoll")]
        c.ob("lookup-exact", not partial, f.loc(), "%s:%s:whole" % (inst(f), f.short), "%s compares only part of the names" % f.name, {"function": f.name})
        ls = loops(f)
        for l in ls:
            w = F.partial(f, l)
            ee = early_exits(f, l)
            for e in ee:
                st = P.state_at(f, e) or set()
                hit = any(y[0] == "eq" and y[2] and ("." + part) in y[1] and ("strcmp(" not in y[1] or "#0" in y[1]) for y in st) or \
                    any(y[0] == "true" and y[2] and ("." + part) in y[1] and "==" in y[1] for y in st)
                # the exit edge itself
                hit = hit or guarded(P, f, e, lambda facts: any(y[0] == "eq" and y[2] and ("." + part) in y[1] and ("v:" + f.params[0]["id"]) in y[1] and
                                                                ("strcmp(" not in y[1] or "#0" in y[1]) or
                                                                y[0] == "true" and y[2] is False and re.search(r"strcmp\(.*\." + part, y[1]) for y in facts))
                c.ob("lookup-exact", hit, f.loc(e), "%s:%s:match" % (inst(f), f.short), "%s ends the search at an entry whose %s is not the one looked for" %
                     (f.name, "name" if part == "first" else "key"), {"function": f.name})
            if w:
                c.ob("lookup-exact", False, f.loc(l), "%s:%s:all" % (inst(f), f.short), "%s does not search the whole table: %s" % (f.name, w), {"function": f.name})

    # ---------------------------------------------------------- tables
    E = Eval(P)
    for q, en, file in TABLES:
        m = P.vars.get(q)
        enum = P.enums.get(en)
        if not m or not m.get("init") or not enum:
            raise AnalysisBroken("table %s not found" % q)
        pairs = []
        for x in wkraw(m["init"]):
            if x["k"] == "CXXConstructExpr" and (x.get("f") or "").startswith("std::pair::") and len(x.get("c", ())) == 2:
                a, b = x["c"]
                qa = [(y.get("d") or {}).get("n", "") for y in wkraw(a) if y["k"] == "DeclRefExpr"]
                qb = [(y.get("d") or {}).get("n", "") for y in wkraw(b) if y["k"] == "DeclRefExpr"]
                lit = [y.get("v") for y in wkraw(a) if y["k"] == "StringLiteral"]
                if qb and (qa or lit):
                    pairs.append((qa[0] if qa else None, lit[0] if lit else None, qb[0]))
        vals, keys = {}, {}
        for a, s, b in pairs:
            if a is not None:
                try:
                    s = E.var(a)
                except Exception:
                    s = a
                c.ob("names", a.split("::")[-1] == b.split("::")[-1], file, "map:%s" % b, "key %s is given the name of %s" % (b, a), {"key": b, "name": str(s)})
            vals.setdefault(s, set()).add(b)
            keys.setdefault(b, []).append(s)
        for s, l in sorted(vals.items(), key=str):
            c.ob("names", len(l) == 1, file, "name:%s" % s, "name %r stands for several keys: %s" % (s, sorted(l)), {"name": str(s)})
        for b, l in sorted(keys.items()):
            c.ob("names", len(l) == 1, file, "key:%s" % b, "key %s has several names: %s" % (b, l), {"key": b})
        for e in enum_names(enum):
            c.ob("names", en + "::" + e in keys or any(k.split("::")[-1] == e for k in keys), file, "enum:%s::%s" % (en, e), "key %s::%s has no name" % (en, e), {"key": e})
        idx = [int(v[1]) for v in enum.get("vals", ())]
        c.ob("names", all(v >= 0 for v in idx) and len(set(idx)) == len(idx), file, "values:%s" % en, "keys of %s share a position or are negative" % en, {"enum": en})

    # ---------------------------------------------------------- encapsulation
    for r in recs:
        for x in r.get("fields", ()):
            if x["n"].split("::")[-1] in ("m_", "v_"):
                c.ob("hidden", x.get("access", "private") == "private", HDR, x["n"], "%s is accessible from outside" % x["n"], {"member": x["n"]})
    for f in ms:
        if "&" in f.ret() and f.d.get("access") != "private":
            for n, st in P.returns(f):
                if n.get("c") and P.key(f, n["c"][0]) in ("this.m_", "this.v_"):
                    c.ob("hidden", f.ret().startswith("const "), f.loc(n), sig(f), "%s hands out an index for modification" % sig(f), {"function": sig(f)})


def simple(t):
    t = re.sub(r"std::basic_string<char[^>]*>", "string", t)
    t = re.sub(r"lanelet::HybridMap<.*>", "HybridMap", t)
    t = re.sub(r"std::_Rb_tree_(const_)?iterator<.*>", lambda m: (m.group(1) or "") + "iterator", t)
    t = re.sub(r"std::pair<.*>", "pair", t)
    t = re.sub(r"std::initializer_list<.*>", "list", t)
    t = re.sub(r"lanelet::(AttributeName|RoleName)\b", "Key", t)
    return t


def reach_node(P, f, n, stop, prune):
    """is there a path from the entry to n that avoids nodes satisfying stop and edges satisfying prune"""
    B = f.cfg["blocks"]
    w = P.where(f, n)
    if w is None:
        w = next(((b, len(x["e"])) for b, x in B.items() if x.get("ti") == n["i"]), None)
    if w is None:
        return False
    seen, st = set(), [f.cfg["entry"]]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        blocked = False
        for i, e in enumerate(B[b]["e"]):
            if b == w[0] and i >= w[1]:
                break
            if isinstance(e, int) and e in f.nodes and stop(f.nodes[e]):
                blocked = True
                break
        if blocked:
            continue
        if b == w[0]:
            return True
        if throws(f, B[b]):
            continue
        for si, s in enumerate(B[b]["s"]):
            if s is not None and not (prune and prune(edge_facts(P, f, b, si))):
                st.append(s)
    return False


def guarded(P, f, n, pred):
    """n lies behind an edge with the fact on every path"""
    return not reach_node(P, f, n, lambda z: False, pred)


def resolve(P, f, n):
    """the key of an expression with local variables replaced by what they were initialised with"""
    out = set()
    n = unwrap(f, n)
    d = 0
    while n["k"] == "DeclRefExpr" and n.get("d", {}).get("k") == "Var" and d < 5:
        i = f.vardef(n["d"]["id"])
        if not isinstance(i, dict):
            break
        n = unwrap(f, i)
        out.add(P.key(f, n))
        d += 1
    while n["k"] in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ImplicitCastExpr") and n.get("c"):
        n = unwrap(f, n["c"][0])
        out.add(P.key(f, n))
    for y in list(P.state_at(f, n) or ()) if out else ():
        pass
    # definitions inside
    return out | {subst(P, f, k) for k in out | {P.key(f, n)}}


def subst(P, f, k):
    for _ in range(3):
        m = re.search(r"v:([A-Za-z_]\w*#\d+:\d+)", k)
        done = True
        for m in re.finditer(r"v:([A-Za-z_]\w*#\d+:\d+)", k):
            vid = m.group(1)
            i = f.vardef(vid) if any(True for _ in [0]) else None
            if isinstance(i, dict) and not any(p["id"] == vid for p in f.params):
                r = P.key(f, unwrap(f, i))
                if r and vid not in r:
                    k = k[:m.start()] + r + k[m.end():]
                    done = False
                    break
        if done:
            break
    return k


def strip_(k):
    while k.startswith("(") and k.endswith(")") and k.count("(") == k.count(")"):
        k = k[1:-1]
    return k


def size_ok(a, ks):
    """True: a > index; False: known not to be; None: unknown"""
    a = strip_(a)
    m = re.match(r"^(.*)\+#(\d+)$", a) or None
    if m and strip_(m.group(1)) in {strip_(k) for k in ks}:
        return int(m.group(2)) >= 1
    m = re.match(r"^#(\d+)\+(.*)$", a)
    if m and strip_(m.group(2)) in {strip_(k) for k in ks}:
        return int(m.group(1)) >= 1
    if a in {strip_(k) for k in ks}:
        return False
    return None


def enough(k, ks):
    """the fact says that the table has the position"""
    m = re.match(r"^this\.v_\.size\(\)(>=|>)(.*)$", k)
    if m:
        return size_ok(m.group(2), ks) is True if m.group(1) == ">=" else (size_ok(m.group(2), ks) is True or strip_(m.group(2)) in {strip_(x) for x in ks})
    return False


def toosmall(k, K):
    """the fact says that the table has no entry at position K: size <= K or size < K + 1"""
    m = re.match(r"^this\.v_\.size\(\)(<=|<)(.*)$", k)
    if not m:
        return False
    r = strip_(m.group(2))
    r = re.sub(r"^\((.*)\)$", r"\1", r)
    if m.group(1) == "<=":
        return r == K or re.sub(r"\(.*?\)", "", r) == K
    return r in (K + "+#1", "#1+" + K)


def index_of(P, f, n):
    """key of the index in v_[index] = ..."""
    o = n["c"][1] if n.get("op") == "=" else None
    if o is None:
        return None
    o = unwrap(f, o)
    if o["k"] in CALLS and o.get("op") == "[]":
        r = resolve(P, f, o["c"][2]) | {P.key(f, o["c"][2])}
        r = {subst(P, f, k) for k in r}
        for k in r:
            if "findKey(" in k:
                return k
        return sorted(r)[0] if r and not any("v:" in k for k in r) else None
    return None


def index_ok(k):
    return bool(re.search(r"findKey\(.*\.first(\.c_str\(\)|\.data\(\))?\)", k)) and k.rstrip(")").endswith(".second")


def compared(F, y, want):
    """the key entry that is reset was found by comparing with one of the wanted iterators"""
    f, env = y["f"], y["env"]
    o = call_obj(f, y["call"])
    if o is None:
        o = y["call"]["c"][1]
    found = False
    st = [unwrap(f, o)]
    seen = set()
    while st:
        n = st.pop()
        if n["i"] in seen:
            continue
        seen.add(n["i"])
        for z in wk(f, n):
            if z["k"] in CALLS and last(z.get("f", "")) == "find" and len(call_args(f, z)) == 3:
                return bool(F.term(f, call_args(f, z)[2], env) & want)
            if z["k"] in CALLS and last(z.get("f", "")) == "findKey":
                return True
            if z["k"] == "DeclRefExpr" and z.get("d", {}).get("k") == "Var":
                i = f.vardef(z["d"]["id"])
                if isinstance(i, dict) and i["i"] not in seen:
                    st.append(unwrap(f, i))
    for z in f.calls():
        if z.get("op") in ("==", "!=") and len(z["c"]) == 3:
            a, b = F.term(f, z["c"][1], env), F.term(f, z["c"][2], env)
            if a & want or b & want:
                found = True
    return found


def loop_ok(P, F, s):
    return False


def resolve_find(P, F, y):
    n = unwrap(y["f"], y["argn"][-1])
    if n["k"] == "DeclRefExpr":
        i = y["f"].vardef(n["d"]["id"])
        if isinstance(i, dict):
            return next((z for z in wk(y["f"], i) if z["k"] in CALLS and last(z.get("f", "")) == "find"), None)
    return None


def idx_of_names(P, f, fi):
    """indices in the definitions of the local names used in a call"""
    out = set()
    for z in wk(f, fi):
        if z["k"] == "DeclRefExpr" and z.get("d", {}).get("k") == "Var":
            i = f.vardef(z["d"]["id"])
            if isinstance(i, dict):
                out |= idx_keys(P, f, i)
    return out


def idx_keys(P, f, n):
    if n is None:
        return set()
    return {P.key(f, z["c"][2]) for z in wk(f, n) if z["k"] in CALLS and z.get("op") == "[]" and len(z["c"]) == 3}
