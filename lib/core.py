"""Check harness: collects violations, undecided items and obligation counts; writes evidence; prints the verdict."""
import json
import os
import sys
import time
import traceback

import fw

KNOWN = os.path.join(fw.VERIF, "known-findings.txt")


class Ctx:
    def __init__(self, pid, work):
        self.id, self.work = pid, work
        self.tree = fw.Tree(work)
        self.t0 = time.time()
        self.violations, self.undecided, self.obl, self.done = [], {}, {}, {}
        self.stats = {}
        self.functions, self.samples = set(), []
        self.scenarios = 0
        self.assumptions = []

    @property
    def thorough(self):
        return fw.TIER == "thorough"

    def bc(self, *a, **k):
        return self.tree.build(*a, **k)

    def violation(self, key, msg, **detail):
        for v in self.violations:
            if v["key"] == key:
                v["count"] += 1
                return
        self.violations.append(dict(key=key, msg=msg, count=1, **detail))

    def undec(self, key, msg):
        self.undecided.setdefault(key, {"msg": msg, "count": 0})["count"] += 1

    def ok(self, kind, n=1):
        """n obligations of this kind were posed and discharged."""
        self.obl[kind] = self.obl.get(kind, 0) + n
        self.done[kind] = self.done.get(kind, 0) + n

    def require(self, cond, kind, key, msg, **detail):
        self.obl[kind] = self.obl.get(kind, 0) + 1
        if cond:
            self.done[kind] = self.done.get(kind, 0) + 1
        else:
            self.violation(key, msg, **detail)
        return cond

    def run(self, bc, scens, partial=False):
        """scens: {key: scenario} -> {key: result}, in parallel.  A scenario that exceeds its limits becomes an undecided item;
        with partial=True what it reported until then is returned (without outcomes), otherwise it is left out."""
        def go(k, q):
            try:
                return fw.absint(bc[k] if isinstance(bc, dict) else bc, q)
            except fw.ScenarioError as e:
                return e
        raw = fw.parallel([(k, (lambda k=k, q=q: go(k, q))) for k, q in scens.items()])
        self.scenarios += len(scens)
        res, bad = {}, []
        for k, d in raw.items():
            if isinstance(d, Exception) or (d.get("aborted") and not scens[k].get("tolerant")):
                why = str(d) if isinstance(d, Exception) else str(d.get("abortMsg"))
                bad.append("%s: %s" % (k, why))
                self.undec("limit|%s" % (k,), "abstract run not completed: %s" % why[:300])
                if partial and not isinstance(d, Exception):
                    res[k] = dict(d, outcomes=[])
            else:
                res[k] = d
        if len(bad) == len(scens) and scens:
            raise fw.AnalysisError("no abstract run was completed: %s" % bad[0][:1500])
        for d in res.values():
            self.functions.update(d["functionsSeen"])
            for k, v in d["stats"].items():
                if k in ("steps", "accesses", "branches", "undecidedBranches", "calls", "forks", "joins", "fixpoints", "c_allocations", "c_frees", "divs", "hashes", "prgs"):
                    self.stats[k] = self.stats.get(k, 0) + v
                elif k == "maxRssMB":
                    self.stats[k] = max(v, self.stats.get(k, 0))
                elif k in ("memSites", "branchSites", "allocSites", "cpuMs"):
                    self.stats["sum_" + k] = self.stats.get("sum_" + k, 0) + v
            for u in d.get("unsupported", []):
                self.undec("unsupported:" + str(u), "instruction not modelled: %s" % u)
        return res

    def reports(self, res, kinds, label, filt=None, what=""):
        """Turns engine reports of the given kinds into violations; undecided-* ones into undecided items."""
        for d in ([res] if "outcomes" in res else res.values()):
            for r in d["reports"]:
                if r["kind"] in kinds and (filt is None or filt(r)):
                    self.violation("%s|%s|%s" % (r["kind"], r["where"], r["msg"]), "%s: %s at %s (entry %s, call path %s)" % (label, r["msg"], r["where"], d["entry"], r["stack"]), where=r["where"], stack=r["stack"])


def load_known():
    known = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known: "):
                parts = dict(x.split("=", 1) for x in ln[7:].split(" ")[:2])
                known.append((parts["property"], parts["key"], ln))
    return known


def finish(ctx, spec):
    pid = ctx.id
    wall = time.time() - ctx.t0
    known = [(k, ln) for p, k, ln in load_known() if p == pid]
    new = []
    for v in ctx.violations:
        hit = [ln for k, ln in known if v["key"].replace(" ", "_") == k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, v["msg"]))
        else:
            new.append(v)
    ev = {"property": pid, "tier": "thorough" if ctx.thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec["level"],
          "coverage": {"explanation": spec["explain"], "rule": spec["rule"], "scenarios": ctx.scenarios, "functions_analysed": len(ctx.functions), "function_names": sorted(ctx.functions)[:400],
                       "obligations": sum(ctx.obl.values()), "discharged": sum(ctx.done.values()), "obligations_by_kind": ctx.obl, "analysis": ctx.stats,
                       "undecided": [{"where": k, "msg": v["msg"], "count": v["count"]} for k, v in sorted(ctx.undecided.items())][:200], "samples": ctx.samples[:10]},
          "assumptions": spec.get("assumptions", []) + ctx.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
    if ev["coverage"]["obligations"] == 0 and not new:
        raise fw.AnalysisError("no obligation was generated: the rule matched nothing")
    os.makedirs(os.path.join(fw.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(fw.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d scenarios, %d functions, %d obligations, %d discharged, %d undecided, %.1f s" % (pid, ctx.scenarios, len(ctx.functions), ev["coverage"]["obligations"], ev["coverage"]["discharged"], len(ctx.undecided), wall))
    if new:
        path = os.path.join(fw.VERIF, "evidence", pid + ".violations.json")
        with open(path, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:12]:
            print("  - " + v["msg"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
