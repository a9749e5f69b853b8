"""C07: API calls reject bad arguments with the documented codes and succeed otherwise."""
import scen
import suite

SPEC = {
    "level": "other",
    "technique": "path-sensitive abstract interpretation of the API layer against argument-class contracts (typestate of events)",
    "note": "Every argument class (null pointers one at a time and together, every capacity / signature length interval, every message and randomness length) of every function of all twelve sets; every abstract path is examined.",
    "explain": "Each public function is interpreted path-sensitively for each class of arguments; the one-way function, the signature scheme and the random source are stubs that enumerate all their results. Each abstract outcome is compared with the contract.",
    "rule": "bad argument: return excludes 0, no scheme operation performed, outputs untouched; good arguments: an outcome with 0 exists, each non-zero outcome follows from a failed one-way function, random source or verification, each outcome with 0 performed the operation exactly once on the unchanged arguments and stored exactly the signature size",
    "assumptions": ["stubs enumerate all results of the stubbed functions"],
}


def u64(runs):
    """Value of an 8 byte little endian output object, None if not constant."""
    if len(runs) == 1 and runs[0]["kind"] == "cell" and runs[0].get("lo") == runs[0].get("hi"):
        return runs[0]["lo"]
    v = 0
    for r in runs:
        if r["kind"] == "cell" and r.get("lo") == r.get("hi"):
            v |= (r["lo"] & ((1 << 64) - 1)) << (8 * r["off"])
        elif r["kind"] == "const":
            for i in range(r["len"]):
                v |= r["value"] << (8 * (r["off"] + i))
        else:
            return None
    return v


def judge(ctx, s, name, d, meta):
    op, good = meta["op"], meta["good"]
    what = "%s (%s), %s" % (s.fn(op), s.name, name)
    key = "%s|" % name.split(" ")[0] + name
    zeros = 0
    for o in d["outcomes"]:
        ev = o["events"]
        r = o.get("ret")
        if r is None:
            continue
        ops = [e for e in ev if e["ev"] in ("sign", "verify")]
        if not good:
            ctx.require(not (r["lo"] <= 0 <= r["hi"]), "bad argument rejected", key + "|ret", "%s: returns 0 (success) although the argument is not acceptable" % what)
            ctx.require(not ops, "operation not performed", key + "|op", "%s: performs the operation although the argument is not acceptable" % what)
            for n in meta["outs"]:
                ctx.require(not o["objs"][n]["touched"], "output untouched", key + "|touch|" + n, "%s: writes output %s although the argument is not acceptable" % (what, n))
            continue
        owf = [e for e in ev if e["ev"] == "owf"]
        rng = [e for e in ev if e["ev"] in ("getrandom", "rand_bytes")]
        if op == "keygen" and len(owf) > 2:
            continue
        bad_rng = any(e.get("out", "full") != "full" for e in rng)
        if r["lo"] <= 0 <= r["hi"]:
            zeros += 1
            if op == "keygen":
                ctx.require(owf and owf[-1]["ret"] == 1, "success after a valid key", key + "|ok", "%s: succeeds although no valid key was generated" % what)
            elif op == "validate_keypair":
                ctx.require(owf and all(e["ret"] == 1 for e in owf), "success after a positive verdict", key + "|ok", "%s: succeeds although the secret key is degenerate" % what)
            elif op == "verify":
                ctx.require(len(ops) == 1 and ops[0]["ret"] == 0, "success after positive verification", key + "|ok", "%s: succeeds without a positive verification" % what)
            else:
                ctx.require(len(ops) == 1 and owf and owf[-1]["ret"] == 1, "success after signing once", key + "|ok", "%s: succeeds without signing exactly once with a valid key" % what)
                ctx.require(u64(o["objs"]["siglen"]["runs"]) == s.sig, "signature length reported", key + "|len", "%s: reports a signature length other than %d" % (what, s.sig))
        if not (r["lo"] == r["hi"] == 0):
            just = bad_rng or any(e["ret"] == 0 for e in owf) if op in ("keygen", "sign", "sign_with_randomness") else (any(e["ret"] == 0 for e in owf) or any(e["ev"] == "bcmp" for e in ev)) if op == "validate_keypair" else any(e["ret"] != 0 for e in ops)
            ctx.require(just, "failure justified", key + "|fail", "%s: can fail although every argument is acceptable and nothing it depends on failed" % what)
        for e in ops:
            want = {"sign": ["I:sk+%d:%d" % (s.half, s.key), "I:sk+0:%d" % s.half], "verify": ["I:pk+0:%d" % s.half, "I:pk+%d:%d" % (s.half, s.half)]}[e["ev"]]
            got = e["bytes"][:2]
            ctx.require(got == want, "key halves passed correctly", key + "|half", "%s: passes %s to the scheme instead of %s" % (what, got, want))
            if e["ev"] == "sign":
                ctx.require(e["bytes"][2].startswith("O") and owf and e["bytes"][2] == "O%d+0:%d" % (owf[-1]["rec"], s.half), "public key half recomputed", key + "|owf", "%s: signs with %s instead of the one-way function output" % (what, e["bytes"][2]))
    if good and op != "clear_private_key":
        ctx.require(zeros > 0, "acceptable arguments can succeed", key + "|nozero", "%s: can never succeed" % what)


def run(ctx):
    sets = scen.sets(ctx.tree)
    cfgs = [("ossl", ctx.bc("ossl"))]
    if ctx.thorough:
        cfgs.append(("port", ctx.bc("port", openssl=False, ndebug=True)))
    for cn, bc in cfgs:
        J, M = {}, {}
        for s in sets:
            for k, (q, meta) in suite.api(s).items():
                J[(s.name, k)], M[(s.name, k)] = q, (s, meta)
        res = ctx.run(bc, J)
        for k, d in res.items():
            s, meta = M[k]
            if meta["op"] != "clear_private_key":
                judge(ctx, s, k[1], d, meta)
            ctx.reports(d, ("null",), "null argument dereferenced")
    ctx.samples.append({"argument classes": sorted({k[1] for k in J})})
