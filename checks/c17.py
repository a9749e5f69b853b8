"""C17: key-pair validation confirms the entire public key."""
import re

import scen
import suite

SPEC = {
    "level": "other",
    "technique": "equality-fact derivation: facts implied by a successful return are compared byte by byte with the required equalities",
    "note": "All key pairs at once, twelve sets, both verdicts of the one-way function, real comparison code; also with the real one-way function.",
    "explain": "Validation is interpreted path-sensitively with unknown public and secret key. A path that returns 0 carries the byte equalities that its branch conditions imply (through xor/or accumulation or comparison loops).",
    "rule": "return 0 implies pk[i] = sk[i] for the input half and pk[H+i] = owf(sk key, sk input)[i] for the output half, every i; degenerate and mismatch codes are nonzero, definite and distinct",
    "assumptions": [],
}


def equalities(facts):
    eq = set()
    for f in facts:
        m = re.match(r"^1:(.*?)#\d+:(.*?)#\d+$", f)
        if m:
            eq.add((m.group(1), m.group(2)))
            eq.add((m.group(2), m.group(1)))
    return eq


def judge(ctx, s, d, whole, cn):
    f = s.fn("validate_keypair")
    codes = {"degenerate": set(), "mismatch": set()}
    zeros = 0
    for o in d["outcomes"]:
        r = o["ret"]
        owf = [e for e in o["events"] if e["ev"] == "owf"]
        if r["lo"] <= 0 <= r["hi"]:
            zeros += 1
            eq = equalities(list(o["facts"]) + (list(o.get("retFacts", ())) if o.get("retPol") == 1 else []))
            for i in range(s.pk):
                if whole and i >= s.half:
                    good = any(a == "I:pk+%d" % i and not b.startswith("I:sk") for a, b in eq)
                elif i < s.half:
                    good = ("I:pk+%d" % i, "I:sk+%d" % i) in eq
                else:
                    good = bool(owf) and any(("I:pk+%d" % i, "O%d+%d" % (e["rec"], i - s.half)) in eq for e in owf)
                ctx.require(good, "public key byte confirmed", "byte|%s" % ("input" if i < s.half else "output"), "%s (%s): can succeed although byte %d of the public key (%s half) differs from the recomputed key" % (f, cn, i, "input" if i < s.half else "output"))
            for e in owf:
                ctx.require(e["ret"] == 1 and e["key"] == "I:sk+%d:%d" % (s.half, s.key) and e["in"] == "I:sk+0:%d" % s.half, "recomputed from this secret key", "owf", "%s: recomputes the public key from %s / %s, verdict %s" % (f, e["key"], e["in"], e["ret"]))
            if not whole:
                ctx.require(len(owf) >= 1, "public key recomputed", "noowf", "%s: succeeds without recomputing the public key" % f)
        elif owf:
            codes["degenerate" if any(e["ret"] == 0 for e in owf) else "mismatch"].add((r["lo"], r["hi"]))
    ctx.require(zeros > 0, "success possible", "never", "%s can never succeed" % f)
    if not whole:
        g, m = codes["degenerate"], codes["mismatch"]
        ctx.require(g and m and not any(a <= d and c <= b for a, b in g for c, d in m), "distinct nonzero codes", "codes", "%s: degenerate keys reported as %s, mismatches as %s" % (f, sorted(g), sorted(m)))


def run(ctx):
    sets = scen.sets(ctx.tree)
    cfgs = [("OpenSSL", ctx.bc("ossl"))] + ([("self-contained", ctx.bc("port", openssl=False, ndebug=True))] if ctx.thorough else [])
    for cn, bc in cfgs:
        J, M = {}, {}
        for s in sets:
            J[(s.name, False)] = dict(suite.api(s)["validate"][0], stubs=scen.owf_stub(s))
            J[(s.name, True)] = suite.heavy(s)["validate"]
            M[s.name] = s
        for (n, whole), d in ctx.run(bc, J).items():
            judge(ctx, M[n], d, whole, cn + (", whole program" if whole else ""))
