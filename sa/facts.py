"""Extraction and loading of program facts (runs the l2facts clang tool over /repo's current sources)."""
import glob, hashlib, json, os, pickle, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("L2_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "l2facts")
PKGS = ["core", "io", "projection", "traffic_rules", "routing", "matching", "validation", "maps", "python"]


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable source...)."""


def include_flags():
    fl = []
    for p in PKGS:
        d = f"{REPO}/lanelet2_{p}/include"
        if os.path.isdir(d):
            fl += ["-I", d]
            if os.path.isdir(d + f"/lanelet2_{p}"):
                fl += ["-I", d + f"/lanelet2_{p}"]
    return fl


def base_flags():
    return (["-std=c++17", "-w", "-fsyntax-only", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + include_flags() +
            ["-isystem", "/usr/include/eigen3"])


def py_flags():
    inc = glob.glob("/usr/include/python3.12")
    return ["-isystem", inc[0]] if inc else []


def sources(group):
    """source files of a package group, globbed exactly as the build driver does"""
    r = []
    if group in ("core", "io", "projection", "traffic_rules", "routing", "matching"):
        r = glob.glob(f"{REPO}/lanelet2_{group}/src/*.cpp")
    elif group == "validation":
        r = glob.glob(f"{REPO}/lanelet2_validation/src/**/*.cpp", recursive=True) + glob.glob(
            f"{REPO}/lanelet2_validation/tools/*/*.cpp")
    elif group == "python":
        r = glob.glob(f"{REPO}/lanelet2_python/python_api/*.cpp")
    elif group == "examples":
        r = glob.glob(f"{REPO}/lanelet2_examples/src/*/*.cpp")
    elif group.startswith("wit_"):
        r = [f"{VERIF}/wit/{group[4:]}.cpp"]
    elif group == "wit":
        # witness units: all public headers of a package in one unit, and explicit uses of templates (wit/inst_*.cpp)
        r = glob.glob(f"{VERIF}/wit/inst_*.cpp")
        d = os.path.join(BUILD, "wit")
        os.makedirs(d, exist_ok=True)
        for inc in sorted(glob.glob(f"{REPO}/lanelet2_*/include")):
            hs = sorted(os.path.relpath(os.path.join(dp, f), inc) for dp, _, fn in os.walk(inc) for f in fn
                        if f.endswith((".h", ".hpp")) and "/impl" not in dp)
            if not hs or "lanelet2_python" in inc or "lanelet2_examples" in inc:
                continue
            t = "".join(f"#include <{h}>\n" for h in hs)
            p = os.path.join(d, os.path.basename(os.path.dirname(inc)) + ".cpp")
            if not os.path.exists(p) or open(p).read() != t:
                with open(p + f".{os.getpid()}", "w") as fh:
                    fh.write(t)
                os.replace(p + f".{os.getpid()}", p)
            r.append(p)
    return sorted(r)


ALL_LIB = ["core", "io", "projection", "traffic_rules", "routing", "matching", "validation"]


def ensure_tool():
    subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], check=True, stdout=subprocess.DEVNULL)
    if not os.path.exists(TOOL):
        raise AnalysisBroken("fact extractor could not be built")


_hc = {}


def file_hash(p):
    if p not in _hc:
        try:
            with open(p, "rb") as fh:
                _hc[p] = hashlib.sha256(fh.read()).hexdigest()
        except OSError:
            _hc[p] = "-"
    return _hc[p]


def mtime(p):
    try:
        return os.path.getmtime(p)
    except OSError:
        return 0


def extract(files, verbose=True):
    """run the extractor over files (parallel); returns list of json paths. A result is reused only while every
    file of the repository it was made from is unchanged."""
    ensure_tool()
    base = os.path.join(BUILD, "facts")
    roots = REPO + "/:" + VERIF + "/wit/"
    tool = file_hash(os.path.join(VERIF, "tool", "l2facts.cpp")) + file_hash(os.path.abspath(__file__)) + REPO
    _hc.clear()
    listing = hashlib.sha256("\n".join(sorted(
        os.path.join(dp, f) for r in glob.glob(f"{REPO}/lanelet2_*/include") for dp, _, fn in os.walk(r) for f in fn)).encode()).hexdigest()

    def one(f):
        d = os.path.join(base, f.strip("/").replace("/", "_"))
        os.makedirs(d, exist_ok=True)
        ents = sorted((e for e in os.listdir(d) if e.endswith(".deps")), key=lambda e: -mtime(os.path.join(d, e)))
        for e in ents:
            try:
                with open(os.path.join(d, e)) as fh:
                    dep = json.load(fh)
            except (OSError, ValueError):
                continue
            if dep["tool"] == tool and dep["listing"] == listing and all(file_hash(p) == h for p, h in dep["files"].items()):
                out = os.path.join(d, e[:-5] + ".json")
                if os.path.exists(out):
                    try:
                        os.utime(os.path.join(d, e))
                    except OSError:
                        pass
                    return out
        for e in ents[7:]:
            try:
                if time.time() - os.path.getmtime(os.path.join(d, e)) < 900:
                    continue
            except OSError:
                continue
            for x in (e, e[:-5] + ".json"):
                try:
                    os.remove(os.path.join(d, x))
                except OSError:
                    pass
        out = os.path.join(d, f"{os.getpid()}_{time.time_ns()}.json")
        tmp = out + ".tmp"
        fl = base_flags()
        if "/lanelet2_python/" in f:
            fl += py_flags() + ["-DPYTHON_API_MODULE_NAME=" + os.path.basename(f)[:-4]]
        if "/lanelet2_examples/" in f:
            fl += ["-DPKG_DIR=\"" + REPO + "/lanelet2_examples\"", "-I", REPO + "/lanelet2_examples/include"]
        p = subprocess.run([TOOL, tmp, roots, f, "--"] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(tmp):
            if f.startswith(os.path.join(BUILD, "wit")):
                return None   # headers that do not compile together: decided by H01
            raise AnalysisBroken(f"cannot parse {f}:\n{p.stdout[-3000:]}")
        with open(tmp) as fh:
            inc = json.load(fh)["includes"]
        fs = {f} | {y for x in inc for y in (x[0], x[2]) if y.startswith((REPO + "/", VERIF + "/"))}
        os.replace(tmp, out)
        with open(out[:-5] + ".deps.tmp", "w") as fh:
            json.dump(dict(tool=tool, listing=listing, files={p: file_hash(p) for p in sorted(fs)}), fh)
        os.replace(out[:-5] + ".deps.tmp", out[:-5] + ".deps")
        return out

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))


def load(groups):
    """returns list of (source file, tu dict) for all sources of the groups"""
    files = []
    for g in groups:
        fs = sources(g)
        if not fs:
            raise AnalysisBroken(f"no sources found for {g}")
        files += fs
    t = time.time()
    paths = extract(files)
    tus = []
    for f, p in zip(files, paths):
        if p is None:
            continue
        with open(p) as fh:
            tus.append((f, json.load(fh)))
    return tus
