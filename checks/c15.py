"""C15: no uninitialised data influences results."""
import full

SPEC = {
    "level": "other",
    "technique": "definite-initialisation analysis (may-uninitialised labels on every byte) by abstract interpretation",
    "note": "Per-byte labels of stack, heap and output buffers through arithmetic, memory copies, hashing and ciphers; data initialised under a data-dependent trip count is listed as undecided.",
    "explain": "Every byte of every local, heap block and output buffer starts with the label UNINIT, which spreads through arithmetic and copies; each branch, address, hash input, cipher input, return value and output byte must not carry it.",
    "rule": "no UNINIT label at a branch/address/length/hash/cipher use, return value, or byte of a documented output on success",
    "assumptions": [],
}
KINDS = ("uninit",)


def run(ctx):
    sets, J, B = full.jobs(ctx, hashes=True)
    by = {s.name: s for s in sets}
    res = ctx.run(B, J, partial=True)
    for k, d in res.items():
        ctx.reports(d, KINDS, "uninitialised data")
        for r in d["reports"]:
            if r["kind"] == "undecided-uninit":
                ctx.undec(r["where"], r["msg"])
        ctx.ok("uses checked (%s)" % k[0], d["stats"]["branchSites"] + d["stats"]["memSites"])
        for o in d["outcomes"]:
            if "ret" in o:
                ctx.require(not {"UNINIT", "CONDUNINIT"} & set(o["retLabel"]["may"]), "return value initialised", "ret|" + str(k[2:]), "%s returns an uninitialised value" % " ".join(map(str, k)))
            if o.get("ret", {"lo": 0})["lo"] != 0 or k[0] not in ("heavy", "heavy-port", "api", "api-port", "prg", "prg-port"):
                continue
            for nm, ob in o["objs"].items():
                lim = {"sig": by[k[1]].sig if k[1] in by else None, "out": k[2] if k[0].startswith("prg") else None, "pk": 10 ** 9, "sk": 10 ** 9, "siglen": 8}.get(nm)
                if lim is None or ob.get("symbolic"):
                    continue
                for r in ob["runs"]:
                    if r["off"] < lim:
                        ctx.require(not {"UNINIT", "CONDUNINIT"} & set(r["label"]["may"]) if "label" in r else True, "output byte initialised", "out|%s|%s" % (k[2] if not k[0].startswith("prg") else "prg", nm), "%s: byte %d of output %s is not initialised on success" % (" ".join(map(str, k)), r["off"], nm))
