"""P01 Projections undo what they do.

For every projector, the values returned by the constructor, by forward and by reverse are written as terms over the origin and
the coordinates given (sa/terms.py); composing the terms of forward with those of reverse has to cancel to nothing, coordinate by
coordinate, for every combination of the flags; conversions of the geodesy library are cancelled as opaque pairs when they get and
return the same things (zone, hemisphere, object, matching coordinate). Failing library calls and leaving the zone have to end in
the documented error."""
import re
from ..facts import AnalysisBroken
from ..terms import Eval, Unknown, Need, chain, fix, leaves, show, show_steps, const, show_p, padd, pmul, mono

U = "GeographicLib::UTMUPS::"
LC = "GeographicLib::LocalCartesian::"
GC = "GeographicLib::Geocentric::"
fwd3 = [("lat", "i"), ("lon", "i"), ("ele", "i"), ("x", "o"), ("y", "o"), ("z", "o")]
rev3 = [("x", "i"), ("y", "i"), ("z", "i"), ("lat", "o"), ("lon", "o"), ("ele", "o")]
EXT = {
    U + "Forward": [("lat", "i"), ("lon", "i"), ("zone", "o"), ("north", "o"), ("x", "o"), ("y", "o")],
    U + "Reverse": [("zone", "i"), ("north", "i"), ("x", "i"), ("y", "i"), ("lat", "o"), ("lon", "o")],
    U + "Transfer": [("zonein", "i"), ("northin", "i"), ("xin", "i"), ("yin", "i"), ("zone", "i"), ("north", "i"), ("x", "o"), ("y", "o"), ("zoneafter", "o")],
    LC + "Forward": fwd3, LC + "Reverse": rev3, GC + "Forward": fwd3, GC + "Reverse": rev3,
}
GEO, MAP = ["lat", "lon", "ele"], ["x", "y", "z"]


def fields(t):
    t = t.replace("const ", "").rstrip(" &")
    if t.endswith("GPSPoint"):
        return GEO
    if "Eigen::Matrix<double, 3, 1>" in t or t.endswith("BasicPoint3d"):
        return MAP
    return None


def run(c):
    P = c.program("projection", "io", "wit_proj")
    c.rule("P01.inverse", "forward followed by reverse cancels to nothing, in every coordinate and for every combination of options", 12)
    c.rule("P01.zone", "coordinates returned are in the zone and hemisphere of the projector, which is also what is converted back", 4)
    c.rule("P01.error", "whatever cannot be projected ends in the projection error of that direction", 6)
    c.rule("P01.origin", "the origin given is the one used, and offsets map it to zero", 3)
    cls = {}
    for f in P.lib():
        if f.kind == "method" and f.short in ("forward", "reverse") and f.cfg and f.cls and len(f.params) == 1 and is_proj(P, f.cls):
            cls.setdefault(f.cls, {})[f.short] = f
    cls = {k: v for k, v in cls.items() if len(v) == 2}
    if len(cls) < 4:
        raise AnalysisBroken("the projectors vanished")
    for q, d in sorted(cls.items()):
        one(c, P, q, d["forward"], d["reverse"])


def is_proj(P, q, d=0):
    for r in P.recbyname.get(q, ()):
        for b in r.get("bases", ()):
            if b["n"] == "lanelet::Projector" or d < 4 and is_proj(P, b["n"], d + 1):
                return True
    return False


def base_of(P):
    def f(a, b):
        if a == b or b in ("std::exception",):
            return True
        if a == "GeographicLib::GeographicErr" and b == "std::runtime_error":
            return True
        return any(f(x["n"], b) for r in P.recbyname.get(a, ()) for x in r.get("bases", ())) or b == "std::runtime_error" and a.startswith("lanelet::")
    return f


def explore(P, go, facts=None, fault=None):
    """every outcome: (facts, Eval, result)"""
    out, st = [], [dict(facts or {})]
    while st:
        fs = st.pop()
        if len(out) + len(st) > 200:
            raise Unknown("too many cases")
        E = Eval(P, EXT, fields, fs, fault, base_of(P), atom=lambda t: text(t))
        try:
            r = go(E)
        except Need as n:
            st += [{**fs, n.a: True}, {**fs, n.a: False}]
            continue
        out.append((fs, E, r))
    return out


def text(t):
    if t[0] == "eq":
        return "eq(" + ", ".join(sorted(show_p(const(x)) for x in t[1:])) + ")"
    return show_p(const(t))


def val(t):
    return show_p(const(t))


def same(a, b):
    return a is not None and b is not None and val(a) == val(b)


def one(c, P, q, F, R):
    name = q.split("::")[-1]
    ctors = [f for f in P.lib() if f.kind == "ctor" and f.cls == q and f.cfg and not f.flag("copy") and
             not any(q in f.ptype(p) for p in f.params)]
    try:
        cs = []
        for k in ctors:
            args = [("in", p["n"]) if "Origin" not in k.ptype(p) else ("in", "origin") for p in k.params]
            for fs, E, r in explore(P, lambda E: runc(E, k, args)):
                cs.append((k, fs, E, r))
        if not ctors:
            cs = [(None, {}, None, (("ret", None), {"this.origin_": ("in", "origin")}))]
    except Unknown as e:
        c.note(f"{name}: constructor not understood ({e})")
        return
    bad_ctor(c, P, name, cs, ctors)
    for k, cf, _, (r, store) in cs:
        if r[0] != "ret":
            continue
        gps = ("fields", tuple((x, ("in", x)) for x in GEO))
        pt = ("fields", tuple((x, ("in", x)) for x in MAP))
        try:
            fo = explore(P, lambda E: E.run(F, [gps], store={a: b for a, b in store.items()}), cf)
            ro = explore(P, lambda E: E.run(R, [pt], store={a: b for a, b in store.items()}), cf)
        except Unknown as e:
            c.note(f"{name}: not understood ({e})")
            continue
        throw_param = [p["n"] for p in k.params if "throw" in p["n"].lower() or "padding" in p["n"].lower()] if k else []
        check_errors(c, P, name, F, fo, "lanelet::ForwardProjectionError", store, cf, gps)
        check_errors(c, P, name, R, ro, "lanelet::ReverseProjectionError", store, cf, pt)
        if not any(r[0] == "ret" for _, _, r in fo) or not any(r[0] == "ret" for _, _, r in ro):
            c.ob("P01.inverse", False, F.loc(), f"{name} never", f"{name} converts no coordinate at all")
            continue
        for ff, FE, fr in fo:
            if fr[0] != "ret":
                continue
            for rf, RE, rr in ro:
                if rr[0] != "ret" or any(rf.get(a, v) != v for a, v in ff.items()):
                    continue
                pair(c, name, F, R, dict(fr[1][1]) if fr[1] and fr[1][0] == "fields" else None,
                     dict(rr[1][1]) if rr[1] and rr[1][0] == "fields" else None, ff, rf, throw_param)
        origin(c, P, name, k, F, store, cf)


def runc(E, k, args):
    S = {}
    r = E.run(k, args, store=S)
    return r, {a: b for a, b in S.items() if a.startswith("this")}


def bad_ctor(c, P, name, cs, ctors):
    for k, fs, E, (r, store) in cs:
        if k is None:
            continue
        if any("Origin" in k.ptype(p) for p in k.params) and r[0] == "ret":
            o = store.get("this.origin_")
            c.ob("P01.origin", o == ("in", "origin"), k.loc(), f"{name} base", f"{name} does not keep the origin it is given ({show(o) if o else None})")
        if r[0] == "throw":
            c.ob("P01.error", r[1] == "lanelet::ForwardProjectionError", k.loc(), f"{name} ctor", f"the constructor throws {r[1]}")
        for i in range(E.count):
            try:
                for f2, E2, (r2, _) in explore(P, lambda E_: runc(E_, k, [("in", p["n"]) if "Origin" not in k.ptype(p) else ("in", "origin") for p in k.params]), fs, fault=i):
                    if (E2.faulted or "").startswith(U):
                        c.ob("P01.error", r2 == ("throw", "lanelet::ForwardProjectionError"), k.loc(), f"{name} ctor",
                             f"an origin that cannot be projected leads to {r2[1] if r2[0] == 'throw' else 'a projector without a zone'}")
            except Unknown as e:
                c.note(f"{name}: {e}")
        for m, v in store.items():
            if v[0] == "obj" and v[1].startswith("GeographicLib::LocalCartesian"):
                want = ["origin.position." + x for x in GEO]
                got = [show(x) for x in v[2][:3]]
                c.ob("P01.origin", got == want, k.loc(), f"{name} {m}", f"the local frame is placed at {got}")



def check_errors(c, P, name, f, outs, want, store, cf, arg):
    key = f"{name}::{f.short}"
    for fs, E, r in outs:
        if r[0] == "throw":
            c.ob("P01.error", r[1] == want, f.loc(), key, f"{key} ends in {r[1]}")
        for i in range(E.count):
            ext = True
            try:
                for f2, E2, r2 in explore(P, lambda E_: E_.run(f, [arg], store=dict(store)), fs, fault=i):
                    if not any(q.startswith(U) for q in [E2.faulted or ""]):
                        continue
                    c.ob("P01.error", r2 == ("throw", want), f.loc(), key + " " + E2.faulted.split("::")[-1],
                         f"a coordinate {E2.faulted} cannot convert leads to {r2[1] if r2[0] == 'throw' else 'a result without error'} in {key}")
            except Unknown as e:
                c.note(f"{key}: {e}")


def exts(t):
    return leaves(t, lambda x: x[0] == "ext" and not const_in(x))


def const_in(x):
    """an output that depends on the origin only"""
    return not leaves(("x",) + tuple(v for _, v in x[3]), lambda z: z[0] == "in" and z[1] in GEO + MAP)


def pair(c, name, F, R, ft, rt, ff, rf, throw_param):
    if ft is None or rt is None or set(ft) != set(MAP) or set(rt) != set(GEO):
        c.note(f"{name}: result not understood")
        return
    flags = ", ".join(f"{a}={v}" for a, v in sorted(ff.items()) if not a.startswith("eq")) or "always"
    isin = lambda t: t[0] == "in" and t[1] in GEO + MAP
    fx = set().union(*[exts(t) for t in ft.values()])
    rx = set().union(*[exts(t) for t in rt.values()])
    if not fx and not rx:
        for g, m in (("lon", "x"), ("lat", "y"), ("ele", "z")):
            cancel(c, name, F, ft[m], rt[g], g, m, flags, isin)
        return
    # opaque pairs
    for m in MAP:
        t = ft[m]
        xs = exts(t)
        if not xs:
            g = {"x": "lon", "y": "lat", "z": "ele"}[m]
            cancel(c, name, F, t, rt[g], g, m, flags, isin)
            continue
        isx = lambda z: z[0] == "ext" and z in xs
        try:
            D = chain(t, isx)
        except Unknown as e:
            c.note(f"{name} {m}: {e}")
            continue
        x = D.leaf
        ok = x[2] == m
        c.ob("P01.inverse", ok, F.loc(), f"{name} {m} ({flags})", f"{m} is taken from the {x[2]} of {x[1]}")
        ins = dict(x[3])
        if x[1].endswith("::Transfer"):
            src = {r: ins.get(r + "in") for r in ("zone", "north", "x", "y")}
            good = all(v is not None and v[0] == "ext" and v[1] == U + "Forward" and v[2] == r for r, v in src.items())
            c.ob("P01.zone", good, F.loc(), f"{name} transfer from", "the coordinates transferred are not those of the conversion, in order")
            if not good:
                continue
            fin = dict(src["x"][3])
            zone, north = ins.get("zone"), ins.get("north")
            after = ("ext", x[1], "zoneafter", x[3])
            eq = [v for a, v in ff.items() if a == text(("eq", after, zone))]
            c.ob("P01.zone", eq == [True], F.loc(), f"{name} transfer check", "coordinates are returned although the transfer may have ended in another zone")
            if throw_param:
                fl = [v for a, v in ff.items() if a in ("1*" + throw_param[0], throw_param[0])]
                c.ob("P01.zone", fl == [False], F.loc(), f"{name} strict", "a coordinate outside of the zone is converted although that was forbidden")
        else:
            fin = ins
            zone = north = None
        for r in GEO:
            if r in fin:
                c.ob("P01.inverse", fin[r] == ("in", r), F.loc(), f"{name} input {r}", f"{show(fin[r])} is converted as {r}")
        # the way back
        for g in GEO:
            if g not in fin:
                continue
            b = rt[g]
            if not (b[0] == "ext" and b[2] == g and b[1].split("::")[-1] == "Reverse" and b[1].split("::")[1] == x[1].split("::")[1]):
                if b[0] == "ext":
                    c.ob("P01.inverse", False, R.loc(), f"{name} output {g}", f"{g} is taken from the {b[2]} of {b[1]}")
                else:
                    c.ob("P01.inverse", not exts(b) and False, R.loc(), f"{name} output {g}", f"{g} is {show(b)[:120]}")
                continue
            bin_ = dict(b[3])
            if "object" in bin_ or "object" in ins:
                c.ob("P01.inverse", bin_.get("object") == ins.get("object"), R.loc(), f"{name} frame", "forward and reverse use different frames")
            if m not in bin_:
                continue
            try:
                C = chain(bin_[m], isin)
            except Unknown as e:
                c.note(f"{name} {m}: {e}")
                continue
            st = fix(D.steps + C.steps)
            c.ob("P01.inverse", C.leaf == ("in", m) and not st, R.loc(), f"{name} {m} ({flags})",
                 f"{m} is converted back from {show(C.leaf)}" if C.leaf != ("in", m) else f"forward and reverse differ in {m}: what is left is {show_steps(st)} ({flags})")
            if "zone" in bin_:
                if zone is not None:
                    c.ob("P01.zone", same(zone, bin_["zone"]) and same(north, bin_["north"]), R.loc(), f"{name} zone back",
                         "the zone and hemisphere converted back from are not those transferred to")
                elif x[1] == U + "Forward":
                    for r in ("zone", "north"):
                        e = ("ext", x[1], r, x[3])
                        w = [v for a, v in ff.items() if a == text(("eq", e, bin_[r]))]
                        c.ob("P01.zone", w == [True], F.loc(), f"{name} {r}", f"coordinates are returned although their {r} may differ from the one converted back from")
    if throw_param and any(v for a, v in rf.items() if a in ("1*" + throw_param[0], throw_param[0])):
        for r in ("zone", "north"):
            okk = [a for a, v in rf.items() if a.startswith("eq(") and f"{U}Forward.{r}(lat=1*{U}Reverse.lat" in a and v]
            c.ob("P01.zone", bool(okk), R.loc(), f"{name} strict back {r}", f"a coordinate whose {r} differs is converted back although that was forbidden")


def cancel(c, name, F, a, b, g, m, flags, isin):
    key = f"{name} {g}/{m} ({flags})"
    for t, o in ((a, g), (b, m)):
        if not leaves(t, lambda z: z[0] in ("in", "fix") and (z[0] == "fix" or z[1] in GEO + MAP or "loop" in z[1])):
            c.ob("P01.inverse", False, F.loc(), key, f"{m if t is a else g} does not depend on {o}")
            return
    try:
        A = chain(a, isin)
        if b[0] != "fix" and leaves(b, lambda z: z[0] == "fix"):
            fx = next(iter(leaves(b, lambda z: z[0] == "fix")))
            out = chain(b, lambda z: z == fx)
            leaf = ("in", "loop:" + fx[1])
            # the iterate in terms of the result
            e = replace(fx[2], leaf, unwind(out.steps, ("in", g)))
            B = chain(e, lambda z: z == ("in", m))
            B.steps += out.steps
        else:
            B = chain(b, isin)
    except Unknown as e:
        c.note(f"{key}: {e}")
        return
    ok = A.leaf == ("in", g) and B.leaf == ("in", m)
    if not ok:
        c.ob("P01.inverse", False, F.loc(), key, f"{m} is made from {show(A.leaf)} and {g} from {show(B.leaf)}")
        return
    st = fix(A.steps + B.steps)
    c.ob("P01.inverse", not st, F.loc(), key, f"forward and reverse differ: what is left of {g} -> {m} -> {g} is {show_steps(st)}")


def unwind(steps, t):
    """t = steps(v) solved for v, for linear steps"""
    for s in reversed(fix(steps)):
        if s[0] != "lin" or s[1][1] or any(k for k, _ in s[2]):
            raise Unknown("iteration variable")
        b = sum(v for _, v in s[2])
        if b:
            t = ("op", "-", t, ("num", b))
        t = ("op", "/", t, ("num", s[1][0]))
    return t


def replace(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    return tuple(replace(x, a, b) for x in t)


def origin(c, P, name, k, F, store, cf):
    """an offset maps the origin to zero"""
    if k is None or not any(m.split(".")[1] for m, v in store.items() if m != "this.origin_" and re.search(r"offset", m, re.I)):
        return
    sym = {m for m, v in store.items() if re.search(r"offset", m, re.I) and not (v[0] == "in" or v == ("num", 0.0))}
    if not sym:
        return
    gps = ("fields", tuple((x, ("in", "origin.position." + x)) for x in GEO))
    try:
        for fs, E, r in explore(P, lambda E_: E_.run(F, [gps], store=dict(store)), cf):
            if r[0] != "ret":
                continue
            for m, t in r[1][1]:
                if any(s == "this." + m + "Offset_" or s.endswith("." + m) or re.search(r"\.%sOffset" % m, s) for s in sym):
                    p = const(t)
                    c.ob("P01.origin", p == (), F.loc(), f"{name} zero {m}", f"the origin is not mapped to {m} = 0 but to {show_p(p)[:200]}")
    except Unknown as e:
        c.note(f"{name}: {e}")
