"""C10: degenerate keys (zero S-box inputs that depend on the key) are always detected."""
import re

import scen
import suite

SPEC = {
    "level": "other",
    "technique": "non-zero fact derivation: the facts implied by a positive verdict are compared with the S-box inputs found by value-numbering dataflow",
    "note": "All keys and inputs at once: every byte inverted by the S-box that depends on the key, in every round, block and key-schedule step of the six one-way functions, and every caller's reaction to the verdict.",
    "explain": "Each one-way function is interpreted with unknown key and input; every argument of the field inversion gets a value number and the labels of the inputs it depends on. The verdict value carries the facts that hold when it is true. The callers are interpreted path-sensitively with both verdicts.",
    "rule": "verdict true implies b != 0 for every inverted byte b that depends on the key (counts: AES 200/416/500, EM 160/288/448); keygen never returns such a key, validate returns a code of its own, sign fails without signing",
    "assumptions": [],
}
OWF = {(128, False): ("owf_128", 16, 16, 200), (192, False): ("owf_192", 24, 32, 416), (256, False): ("owf_256", 32, 32, 500),
       (128, True): ("owf_em_128", 16, 16, 160), (192, True): ("owf_em_192", 24, 24, 288), (256, True): ("owf_em_256", 32, 32, 448)}


def verdict(ctx, bc, cn):
    J = {k: {"entry": f, "memo": False, "facts": True, "dumpHash": False, "stubs": {"bf8_inv": {"kind": "sbox"}}, "args": [{"ptr": "key"}, {"ptr": "in"}, {"ptr": "out"}],
             "objs": [{"name": "key", "size": kb, "readonly": True, "atom": "KEY"}, {"name": "in", "size": ib, "readonly": True, "atom": "PKIN"}, {"name": "out", "size": ib, "init": "uninit"}]}
         for k, (f, kb, ib, _) in OWF.items()}
    again = {}
    for k, d in ctx.run(bc, J).items():
        f, kb, ib, n = OWF[k]
        key = "verdict|%s|" % f
        inv = {x["id"]: x for x in d["sboxes"] if "KEY" in x["label"]["may"]}
        for o in d["outcomes"]:
            r = o["ret"]
            if r["hi"] & 0xff == 0:
                continue
            pool = list(o["facts"]) + (list(o["retFacts"]) if r["lo"] != r["hi"] and o.get("retPol") == 2 else [])
            nz = {int(m.group(1)) for m in (re.match(r"^2:.*?#(\d+):", x) for x in pool) if m}
            if not nz and r["lo"] != r["hi"] and "KEY" in o["retLabel"]["must"]:
                again[f] = (J[k], inv)
                continue
            ctx.require(len(nz) >= n, "number of tested bytes", key + "count", "%s: a positive verdict implies only %d non-zero S-box inputs, the scheme has %d that depend on the key" % (f, len(nz), n))
            for i, x in inv.items():
                ctx.require(i and i in nz, "inverted byte tested", key + "byte", "%s: an S-box input (%s, evaluated in %s) may be zero although the key is reported valid" % (f, x["name"] or "value %d" % i, x["where"]))
            for nm, ob in o["objs"].items():
                if nm == "out":
                    ctx.require(all("UNINIT" not in x["label"]["may"] for x in ob["runs"]), "output written", key + "out", "%s: output not completely written" % f)
        if not inv:
            ctx.undec(f + " anchors", "%s (%s): no field inversion bf8_inv evaluated; decided by count only" % (f, cn))
        ctx.samples.append({"function": f, "inversions": len(d["sboxes"]), "key dependent": len(inv)})
    whatif(ctx, bc, again)


def whatif(ctx, bc, again):
    """The verdict's form yields no facts: one S-box input at a time is set to zero, everything else stays unknown."""
    J = {(f, i): dict(q, forceZero=i) for f, (q, inv) in again.items() for n, i in enumerate(sorted(x for x in inv if x)) if ctx.thorough or n % max(1, len(inv) // 48) == 0}
    res = ctx.run(bc, J)
    fuzzy = {f for (f, i), d in res.items() if d["stats"]["zfArith"] and any(o["ret"]["hi"] & 0xff for o in d["outcomes"])}
    for f, (q, inv) in again.items():
        if f in fuzzy or not any(k[0] == f for k in res):
            ctx.undec(f, "%s: the verdict depends on the key but in a form the fact derivation does not read" % f)
    for (f, i), d in sorted(res.items()):
        if f in fuzzy:
            continue
        x = again[f][1][i]
        for o in d["outcomes"]:
            ctx.require(o["ret"]["hi"] & 0xff == 0, "verdict negative when this input is zero", "verdict|%s|byte" % f, "%s: an S-box input (%s, evaluated in %s) may be zero although the key is reported valid" % (f, x["name"] or "value %d" % i, x["where"]))


def callers(ctx, bc, sets):
    J, M = {}, {}
    for s in sets:
        A = suite.api(s)
        for k in ("keygen", "validate", "sign", "sign_wr", "sign_wr:rho null empty", "sign:null empty message"):
            J[(s.name, k)], M[(s.name, k)] = A[k][0], (s, A[k][1]["op"])
    for k, d in ctx.run(bc, J).items():
        s, op = M[k]
        f = s.fn(op)
        codes = {False: set(), True: set()}
        for o in d["outcomes"]:
            if any(e["ev"] == "rng-undecided" for e in o["events"]):
                ctx.undec("draw length|" + f, "a request to the random source has an unknown length")
                continue
            r, owf = o["ret"], [e for e in o["events"] if e["ev"] == "owf"]
            zero = r["lo"] <= 0 <= r["hi"]
            for e in owf:
                ctx.require(e["fn"] == OWF[(s.lam, s.em)][0] or not e["fn"].startswith("owf_"), "right one-way function", "%s|fn" % op, "%s uses %s" % (f, e["fn"]))
            bad = not owf or owf[-1]["ret"] == 0 or (op != "keygen" and any(e["ret"] == 0 for e in owf))
            if zero:
                ctx.require(owf and not bad, "success needs a positive verdict", "%s|accept" % op, "%s succeeds with a degenerate or unchecked key" % f)
                if op == "keygen":
                    lab = set().union(*[set(x["label"]["may"]) for x in o["objs"]["pk"]["runs"]])
                    ctx.require("OWFBAD" not in lab, "no degenerate output", "keygen|label", "%s can return a public key computed from a degenerate key" % f)
                if owf and op != "keygen":
                    ctx.require(all(e["key"] == "I:sk+%d:%d" % (s.half, s.key) and e["in"] == "I:sk+0:%d" % s.half for e in owf), "verdict of this key", "%s|key" % op, "%s judges %s instead of its key" % (f, [e["key"] for e in owf]))
            else:
                ctx.ok("outcomes with an error")
                if op == "validate_keypair" and owf:
                    codes[bad].add((r["lo"], r["hi"]))
            if bad and owf:
                ctx.require(not [e for e in o["events"] if e["ev"] == "sign"], "no signing with a degenerate key", "%s|sign" % op, "%s signs with a degenerate key" % f)
        if op == "validate_keypair":
            ctx.require(codes[True] and codes[False] and not (codes[True] & codes[False]), "own code for degenerate keys", "validate|code", "%s reports a degenerate key with %s, a mismatch with %s" % (f, sorted(codes[True]), sorted(codes[False])))


def run(ctx):
    sets = scen.sets(ctx.tree)
    bc = ctx.bc("ossl")
    verdict(ctx, bc, "ossl")
    callers(ctx, bc, sets)
    if ctx.thorough:
        port = ctx.bc("port", openssl=False, ndebug=True)
        verdict(ctx, port, "port")
        callers(ctx, port, sets)
