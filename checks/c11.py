"""C11: only the documented outputs are written, and completely."""
import full

SPEC = {
    "level": "other",
    "technique": "frame (write-effect) analysis: per-byte write sets of every output object and write-protection of every input object",
    "note": "Every operation of every set in whole-program interpretation with all message lengths and challenges, and every argument class at the API layer; announced capacities from the exact size up to 2^64-1, objects with slack behind the documented size.",
    "explain": "Inputs are read-only objects: any store into them on any path is reported. Outputs start as UNINIT; on success the bytes of the documented size must have been written on every path and the bytes behind must still be exactly UNINIT. On every other return of key generation, validation and verification only the documented outputs may differ.",
    "rule": "no store to an input; sig[0,S) written, sig[S,S+64) untouched; siglen = S; pk, sk completely written on success; generator writes exactly the requested bytes; no store to a static object",
    "assumptions": [],
}
KINDS = ("write-slack", "write-input", "write-global", "write-global-const")


def untouched(r):
    return set(r["label"]["may"]) == {"UNINIT"}


def run(ctx):
    sets, J, B = full.jobs(ctx, hashes=False)
    by = {s.name: s for s in sets}
    res = ctx.run(B, J)
    for k, d in res.items():
        what = "%s (%s)" % (d["entry"], " ".join(map(str, k[1:])))
        ctx.reports(d, KINDS, "write outside the documented outputs")
        if k[0] in ("bcmp", "hash"):
            continue
        op = str(k[2]).split("/")[0].split(":")[0] if not k[0].startswith("prg") else "prg"
        ctx.ok("stores checked", d["stats"]["memSites"])
        size = {"sig": by[k[1]].sig, "pk": by[k[1]].pk, "sk": by[k[1]].sk} if k[1] in by else {"out": k[2]}
        for o in d["outcomes"]:
            ok = "ret" not in o or o["ret"]["lo"] <= 0 <= o["ret"]["hi"]
            for nm, ob in o["objs"].items():
                if ob.get("symbolic"):
                    continue
                if op in ("verify", "validate") or (op in ("sign", "sign_wr") and nm in ("sk", "rho", "pk")):
                    ctx.require(not ob["touched"], "input unchanged", "input|%s|%s" % (op, nm), "%s writes to its input %s" % (what, nm))
                    continue
                if k[0] == "crypto_sign" and nm in ("sk", "pk") and op != "keypair":
                    ctx.require(not ob["touched"], "input unchanged", "input|%s|%s" % (op, nm), "%s writes to its input %s" % (what, nm))
                if nm not in size or op == "clear" or k[0] == "crypto_sign":
                    continue
                for r in ob["runs"]:
                    if r["off"] >= size[nm] or r["off"] + r["len"] > size[nm]:
                        ctx.require(untouched(r), "bytes behind the output untouched", "slack|%s|%s" % (op, nm), "%s writes behind byte %d of %s" % (what, size[nm], nm))
                    if ok and r["off"] < size[nm]:
                        ctx.require(not (set(r["label"]["may"]) & {"UNINIT", "MAYUNINIT", "CONDUNINIT"}), "output byte written", "out|%s|%s" % (op, nm), "%s: byte %d of %s is not written on success" % (what, r["off"], nm))
    ctx.samples.append({"scenarios": len(J)})
