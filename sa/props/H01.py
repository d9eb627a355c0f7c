"""H01: public headers can be used alone, repeatedly, in any order and in several translation units of one program."""
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from ..facts import REPO, base_flags, AnalysisBroken

CXX = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"


def headers():
    for pkg in sorted(os.listdir(REPO)):
        inc = os.path.join(REPO, pkg, "include")
        if not pkg.startswith("lanelet2_") or not os.path.isdir(inc) or pkg in ("lanelet2_python", "lanelet2_examples"):
            continue
        for dp, _, fn in os.walk(inc):
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".hh")) and "impl" not in os.path.relpath(dp, inc).split("/"):
                    yield pkg, os.path.relpath(os.path.join(dp, f), inc), os.path.relpath(os.path.join(dp, f), REPO)


def errors(txt):
    return [l for l in txt.splitlines() if re.search(r"\b(fatal )?error:|-Wheader-hygiene|-Wmacro-redefined", l)]


def run(c):
    H = sorted(headers(), key=lambda x: x[2])
    if len(H) < 20:
        raise AnalysisBroken("public headers vanished")
    fl = [x for x in base_flags() if x not in ("-w", "-fsyntax-only")] + ["-Wno-everything", "-fno-caret-diagnostics", "-ferror-limit=3"]
    c.rule("alone", "a unit that includes only this header compiles", 30)
    c.rule("twice", "a unit that includes this header twice compiles", 30)
    c.rule("defines", "a header defines no function or variable with strong external linkage", 30)
    c.rule("together", "all public headers of a package, and of all packages, compile in one unit, in either order", 4)
    c.rule("hygiene", "no header imports a namespace into the global scope or redefines a macro of another header", 4)
    with tempfile.TemporaryDirectory() as d:
        def comp(name, text, extra):
            p = os.path.join(d, name + ".cpp")
            with open(p, "w") as fh:
                fh.write(text)
            r = subprocess.run([CXX] + fl + extra + [p], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.returncode, r.stdout

        def one(i):
            pkg, inc, path = H[i]
            o = os.path.join(d, f"h{i}.o")
            rc, out = comp(f"h{i}", f"#include <{inc}>\n", ["-c", "-O0", "-o", o, "-MD", "-MF", o + ".d"])
            sym, n = [], 0
            rc2, out2 = 0, ""
            if rc == 0:
                t = subprocess.run(["nm", "-C", "--extern-only", "--defined-only", o], stdout=subprocess.PIPE, text=True).stdout
                sym = [m.group(2) for m in re.finditer(r"^\S+ ([TDBRGSC]) (.*)$", t, re.M)]
                n = open(o + ".d").read().count("\\\n")
                os.remove(o)
                rc2, out2 = comp(f"t{i}", f"#include <{inc}>\n#include <{inc}>\n", ["-fsyntax-only"])
            return rc, out, sym, n, rc2, out2

        units = []
        for pkg in sorted({h[0] for h in H}):
            units.append((pkg, [h[1] for h in H if h[0] == pkg]))
        units.append(("all packages", [h[1] for h in H]))
        with ThreadPoolExecutor(8) as ex:
            big = []
            for j, (nm, hs) in enumerate(units):
                for order in ("forward", "backward"):
                    hh = hs if order == "forward" else hs[::-1]
                    big.append((nm, order, len(hs), ex.submit(comp, f"u{j}{order}", "".join(f"#include <{x}>\n" for x in hh),
                                                     ["-fsyntax-only", "-Wheader-hygiene", "-Wmacro-redefined"])))
            res = list(ex.map(one, range(len(H))))
            big = [(a, b, n, fu.result()) for a, b, n, fu in big]
    symof = {}
    alone_ok = True
    for (pkg, inc, path), (rc, out, sym, n, rc2, out2) in zip(H, res):
        e = errors(out)
        if not c.ob("alone", rc == 0, path, path, f"does not compile on its own: {(e or [out[-300:]])[0]}", inc):
            alone_ok = False
            continue
        e = errors(out2)
        if not c.ob("twice", rc2 == 0, path, path, f"cannot be included twice: {(e or [out2[-300:]])[0]}", inc):
            alone_ok = False
        for s in sym:
            symof.setdefault(s, []).append((n, path))
        if not sym:
            c.ob("defines", True, path, path, "", inc)
    for s, l in sorted(symof.items()):
        w = min(l)[1]
        c.ob("defines", False, w, s, f"defines {s} with external linkage, which clashes when two units include the header")
    for nm, order, n, (rc, out) in big:
        e = errors(out)
        hard = [x for x in e if "error:" in x]
        c.ob("together", rc == 0 or not alone_ok and not hard, nm, f"{nm}:{order}", f"the {n} public headers do not compile together: {(hard or [out[-300:]])[0]}",
             f"{n} headers, {order} order")
        w = sorted({re.sub(r"^.*?/(lanelet2_\w+/include/)", r"\1", x) for x in e if "error:" not in x})
        c.ob("hygiene", not w, nm, f"{nm}:{order}:hygiene", f"{w[:3]}")
    c.analysed["headers"] = len(H)
