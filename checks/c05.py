"""C05: every memory access stays inside its object."""
import full

SPEC = {
    "level": "other",
    "technique": "interval/symbolic-length bounds analysis of every load, store and memory intrinsic by abstract interpretation",
    "note": "All contents of correctly sized buffers, all challenges, all message and randomness lengths; every access in every reached function is an obligation. OpenSSL is represented by a model that checks the buffer sizes passed to it.",
    "explain": "Every public operation of every parameter set is interpreted over LLVM IR with abstract contents and symbolic lengths; each memory access (including memcpy/memset and buffers handed to OpenSSL or the kernel) must lie within [0, size) of the object it addresses for the whole interval of its offset; accesses to freed or null objects are reported too.",
    "rule": "offset interval + access width within object bounds for every access; no null or freed base; memcpy ranges disjoint",
    "assumptions": ["allocation succeeds", "libc and OpenSSL stay within the sizes they are given"],
}
KINDS = ("oob", "null", "overlap", "uaf", "huge-alloc", "write-global")


def run(ctx):
    sets, J, B = full.jobs(ctx)
    res = ctx.run(B, J, partial=True)
    for k, d in res.items():
        ctx.reports(d, KINDS, "out-of-object access")
        for r in d["reports"]:
            if r["kind"] in ("undecided-bounds", "undecided-pointer", "undecided-range"):
                ctx.undec("%s|%s" % (r["kind"], r["where"]), r["msg"])
        ctx.ok("memory access sites (%s)" % k[0], d["stats"]["memSites"])
    ctx.samples.append({"scenarios": len(J), "accesses interpreted": ctx.stats.get("accesses")})
