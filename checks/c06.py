"""C06: every allocation is released exactly once on every path."""
import full

SPEC = {
    "level": "other",
    "technique": "typestate analysis of heap blocks and cipher contexts by path-sensitive abstract interpretation",
    "note": "Every allocation and cipher context created by any operation, for every outcome (success, rejection, invalid signature, invalid key).",
    "explain": "Heap blocks and EVP contexts are objects with the states live, freed, maybe-freed; every outcome of every operation is examined for objects that are not freed, and every free/use is checked against the state.",
    "rule": "at each return of each public operation no heap block or cipher context created during the call is live; no double free, free of a non-heap pointer, or use after free",
    "assumptions": ["allocation calls succeed (C44 is not claimed); cipher calls may fail"],
}
KINDS = ("uaf", "double-free", "bad-free", "cipher-misuse")


def run(ctx):
    sets, J, B = full.jobs(ctx, hashes=False, status=True)
    res = ctx.run(B, J, partial=True)
    sites = set()
    for k, d in res.items():
        ctx.reports(d, KINDS, "ownership error")
        sites.update(d["allocationSites"])
        for o in d["outcomes"]:
            ctx.ok("outcomes without live allocation")
            for l in o["leaks"]:
                ctx.violation("leak|" + l["what"], "%s: %s%s is not released when the call returns %s" % (" ".join(map(str, k)), l["what"], " (on some path)" if l["maybe"] else "", o.get("ret", {}).get("lo")), where=l["what"])
        ctx.ok("allocations tracked", d["stats"].get("c_allocations", 0))
        ctx.ok("releases checked", d["stats"].get("c_frees", 0))
    if not sites:
        import fw
        raise fw.AnalysisError("no allocation site was seen")
    ctx.samples.append({"allocation sites": sorted(sites)[:40]})
