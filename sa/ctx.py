"""Obligation bookkeeping, known findings, evidence and verdicts."""
import json, os, sys, time, traceback
from . import facts
from .facts import AnalysisBroken, VERIF, REPO

KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known():
    """lines 'known: property=<id> key=<key> :: <description>'  ('fixed:' lines are documentation and suppress nothing)"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known:"):
                rest = l[6:].strip()
                head, _, desc = rest.partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split(" ", 1))
                out.append((kv["property"], kv["key"].strip(), desc))
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obs = {}      # rule -> [n, ok]
        self.samples = {}
        self.viol = []     # (rule, key, where, msg)
        self.notes = []
        self.units = set()
        self.rules = {}
        self.analysed = {}
        self.minima = {}
        self.progs = {}

    def program(self, *groups):
        from .core import Program
        k = tuple(groups)
        if k not in self.progs:
            p = Program(list(groups))
            self.progs[k] = p
            for s, _ in p.tus:
                self.units.add(s)
            self.analysed["functions"] = self.analysed.get("functions", 0) + len(p.funcs)
        return self.progs[k]

    def rule(self, rid, text, minimum=1):
        self.rules[rid] = text
        self.minima[rid] = minimum
        self.obs.setdefault(rid, [0, 0])

    def ob(self, rid, ok, where, key, msg, sample=None):
        """one decided obligation; key identifies the construct independent of line numbers"""
        o = self.obs.setdefault(rid, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
            s = self.samples.setdefault(rid, [])
            if len(s) < 6:
                s.append(f"{where}: {sample or key}")
        else:
            if not any(v[0] == rid and v[1] == key and v[2] == where for v in self.viol):
                self.viol.append((rid, key, where, msg))
        return ok

    def note(self, s):
        self.notes.append(s)

    def finish(self):
        known = [k for k in load_known() if k[0] == self.prop]
        new, old = [], []
        for v in self.viol:
            kf = next((k for k in known if k[1] == v[1]), None)
            (old if kf else new).append((v, kf))
        short = []
        for rid, mn in self.minima.items():
            if self.obs[rid][0] < mn:
                short.append(f"rule {rid}: {self.obs[rid][0]} instances, expected at least {mn}")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="other",
                  coverage=dict(
                      explanation="static analysis of /repo's current sources: "
                      + "; ".join(f"[{r}] {t} ({self.obs[r][0]} obligations, {self.obs[r][1]} hold)" for r, t in self.rules.items()),
                      obligations=sum(o[0] for o in self.obs.values()), discharged=sum(o[1] for o in self.obs.values()),
                      translation_units=len(self.units), functions_loaded=self.analysed.get("functions", 0),
                      per_rule={r: dict(text=self.rules.get(r, ""), obligations=o[0], discharged=o[1], samples=self.samples.get(r, []))
                                for r, o in self.obs.items()},
                      known_findings=len(old), **{k: v for k, v in self.analysed.items() if k != "functions"}),
                  assumptions=self.notes, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for r, o in self.obs.items():
            print(f"{self.prop} {r}: {o[1]}/{o[0]} obligations hold -- {self.rules.get(r, '')}")
        for (rid, key, where, msg), kf in old:
            print(f"KNOWN-FINDING: property={self.prop} {where}: {msg}")
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violations.txt")
            with open(rp, "w") as fh:
                for (rid, key, where, msg), _ in new:
                    fh.write(f"{where}: [{rid}] {msg}\n    key={key}\n    rule: {self.rules.get(rid, '')}\n")
            for (rid, key, where, msg), _ in new:
                print(f"{where}: [{rid}] {msg}  (key={key})")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if short:
            print("ANALYSIS-BROKEN: " + "; ".join(short))
            return 3
        return 0


def main(prop, run):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    c = Ctx(prop, tier, seed)
    try:
        run(c)
        rc = c.finish()
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN: {e}")
        # violations already established stand on their own
        if c.viol:
            rc = c.finish()
            rc = rc if rc == 1 else 3
        else:
            rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    return rc
