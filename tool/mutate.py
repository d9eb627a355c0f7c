#!/usr/bin/env python3
"""mutate.py ID... : sensitivity test of checks. Applies each textual mutation of tool/mutations/<ID>.py to a scratch copy of
/repo that is bind mounted over /repo in a private mount namespace and reports whether the check answers as expected.
A mutation is (name, file, old, new[, expected exit code = 1])."""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    pid, m = job
    name, rel, old, new = m[:4]
    exp = m[4] if len(m) > 4 else 1
    w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        for d in os.listdir("/repo"):
            if d.startswith("lanelet2_"):
                shutil.copytree(f"/repo/{d}", f"{w}/{d}", symlinks=True)
        edits = [(rel, old, new)] if isinstance(old, str) else list(zip([rel] * len(old) if isinstance(rel, str) else rel, old, new))
        for r, o, n in edits:
            p = f"{w}/{r}"
            s = open(p).read()
            if o not in s:
                return pid, name, "NOMATCH", ""
            open(p, "w").write(s.replace(o, n, 1))
        ev = tempfile.mkdtemp(prefix="mutev_", dir="/tmp")
        r = subprocess.run(["unshare", "-m", "bash", "-c",
                            f"mount --bind {w} /repo && mount --bind {ev} {V}/evidence && cd {V} && ./check {pid} quick"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        shutil.rmtree(ev)
        lines = [l for l in r.stdout.splitlines() if "(key=" in l or "BROKEN" in l or l.startswith(("Traceback", "  File"))]
        return pid, name, ("ok" if r.returncode == exp else f"MISS rc={r.returncode}"), ((lines[0][:230] if lines else "") + (r.stdout[-300:] if r.returncode == 4 else ""))
    finally:
        shutil.rmtree(w, ignore_errors=True)


jobs = []
for a in sys.argv[1:]:
    pid, _, flt = a.partition(":")
    sp = importlib.util.spec_from_file_location("m", f"{V}/tool/mutations/{pid}.py")
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    jobs += [(pid, x) for x in m.M if flt in x[0]]
with ThreadPoolExecutor(5) as ex:
    for pid, name, res, line in ex.map(one, jobs):
        print(f"{res:10s} {pid} {name} | {line}")
