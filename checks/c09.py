"""C09: entropy failure is reported and randomness is never predictable."""
import os
import re

import fw
import scen
import suite

SPEC = {
    "level": "other",
    "technique": "path-sensitive provenance analysis of random bytes over all results of the system random source",
    "note": "Enumerates full, short and failed deliveries of getrandom, arc4random_buf and /dev/urandom reads on every path; provenance of each output byte is tracked.",
    "explain": "The random source is modelled with all its outcomes; bytes it did not deliver carry RNGFAIL. For each outcome with return 0 the provenance of each key byte and of the signing randomness is examined; the fallback back ends of rand_bytes are compiled and analysed too.",
    "rule": "return 0 implies: no RNGFAIL/UNINIT byte in outputs, all of sk delivered by the random source in the last draw, pk = (sk input, owf(sk)) of that key with a positive verdict, rho = one whole fresh block of lambda/8 bytes; rand_bytes returns 0 only after delivering len bytes",
    "assumptions": ["getrandom/read/arc4random_buf deliver unpredictable bytes"],
}


def clean(runs, lo, hi):
    return all(not ({"RNGFAIL", "UNINIT", "OWFBAD", "MAYUNINIT"} & set(r["label"]["may"])) for r in runs if r["off"] < hi and r["off"] + r["len"] > lo)


def segs(runs, lo, hi):
    """Provenance of bytes [lo, hi) in the notation of the events."""
    out = []
    for r in sorted(runs, key=lambda r: r["off"]):
        a, b = max(lo, r["off"]), min(hi, r["off"] + r["len"])
        if a < b:
            m = re.match(r"^(.*)\+(\d+)$", r.get("name") or "?+0")
            n, o = (m.group(1), int(m.group(2)) + a - r["off"]) if m else (r["name"], 0)
            if out and out[-1][0] == n and out[-1][1] + out[-1][2] == o:
                out[-1][2] += b - a
            else:
                out.append([n, o, b - a])
    return ",".join("%s+%d:%d" % tuple(x) for x in out)


def fresh(text):
    """Only bytes of the random source, none used twice. Returns the number of bytes, 0 if not."""
    seen = set()
    for t in (text or "?").split(","):
        m = re.match(r"^(R\d+)\+(\d+):(\d+)$", t)
        new = {(m.group(1), int(m.group(2)) + i) for i in range(int(m.group(3)))} if m else set()
        if not new or new & seen:
            return 0
        seen |= new
    return len(seen)


def decided(ctx, d, what):
    """Outcomes on which every request to the random source had a known length."""
    for o in d["outcomes"]:
        if any(e["ev"] == "rng-undecided" for e in o["events"]):
            ctx.undec("draw length|" + what, "a request to the random source has an unknown length")
        else:
            yield o


def keygen(ctx, s, d, what):
    for o in decided(ctx, d, what):
        r = o["ret"]
        if not (r["lo"] <= 0 <= r["hi"]):
            ctx.ok("failing outcome")
            continue
        pk, sk = o["objs"]["pk"]["runs"], o["objs"]["sk"]["runs"]
        key = "keygen|"
        ctx.require(clean(sk, 0, s.sk), "secret key fully random", key + "sk", "%s: can succeed with secret-key bytes the random source did not deliver" % what)
        ctx.require(clean(pk, 0, s.pk), "public key clean", key + "pk", "%s: can succeed with public-key bytes built from undelivered randomness, uninitialised data or a degenerate key" % what)
        ctx.require(all(set(x["label"]["must"]) >= {"RNG"} for x in sk), "secret key from the random source", key + "src", "%s: secret-key bytes that do not come from the random source" % what)
        ctx.require(all("OWF" in x["label"]["must"] for x in pk if x["off"] >= s.half), "public key from the one-way function", key + "owf", "%s: public-key bytes not computed by the one-way function" % what)
        owf = [e for e in o["events"] if e["ev"] == "owf"]
        rec = owf[-1]["rec"] if owf else None
        full, ki, kk = segs(sk, 0, s.sk), segs(sk, 0, s.half), segs(sk, s.half, s.sk)
        ctx.require(fresh(full), "secret key consists of distinct fresh bytes", key + "draw", "%s: the secret key does not consist of distinct fresh random bytes: %s" % (what, full))
        ctx.require(owf and owf[-1]["ret"] == 1 and owf[-1]["key"] == kk and owf[-1]["in"] == ki, "one-way function applied to this key", key + "same", "%s: the public key is computed from %s/%s, not from the returned secret key %s" % (what, owf and owf[-1]["key"], owf and owf[-1]["in"], full))
        ctx.require(segs(pk, 0, s.half) == ki and segs(pk, s.half, s.pk) == "O%s+0:%d" % (rec, s.half), "public key halves", key + "halves", "%s: public key consists of %s" % (what, segs(pk, 0, s.pk)))


def sign(ctx, s, d, what):
    seen = 0
    for o in decided(ctx, d, what):
        r = o["ret"]
        if not (r["lo"] <= 0 <= r["hi"]):
            ctx.ok("failing outcome")
            continue
        seen += 1
        sg = [e for e in o["events"] if e["ev"] == "sign"]
        rng = [e for e in o["events"] if e["ev"] == "getrandom"]
        ctx.require(rng and any(e["out"] != "fail" for e in rng), "no success on failed draws alone", "sign|draw", "%s: succeeds although the random source failed" % what)
        ctx.require(clean(o["objs"]["sig"]["runs"], 0, s.sig), "signature clean", "sign|sig", "%s: can return a signature made with undelivered randomness" % what)
        for e in sg:
            ctx.require(fresh(e["rho"]) >= s.lb and not e["rhoUninit"], "signing randomness is fresh", "sign|rho", "%s: signing randomness is %s, expected %d fresh bytes" % (what, e["rho"], s.lb))


def giveup(ctx, bc, sets):
    """With a one-way function that always reports a degenerate key, key generation must not succeed (decided for the first iterations)."""
    def one(s):
        d = fw.absint(bc, dict(suite.api(s)["keygen"][0], rngOk=True, disjunctive=False, stubs=scen.owf_stub(s, "false"), steps=40000))
        if not d.get("aborted"):
            return d
        if "step limit" not in str(d.get("abortMsg")):
            ctx.undec("giveup|" + s.name, str(d.get("abortMsg")))
        return None
    for s, d in fw.parallel([(s, lambda s=s: one(s)) for s in sets]).items():
        for o in d["outcomes"] if d else [{"ret": {"lo": 1, "hi": 1}}]:
            ctx.require(not (o["ret"]["lo"] <= 0 <= o["ret"]["hi"]), "never gives up with a degenerate key", "keygen|giveup", "%s: succeeds with a degenerate key when every candidate key is degenerate" % s.fn("keygen"))


def backends(ctx, s):
    base = ["HAVE_ALIGNED_ALLOC", "HAVE_EXPLICIT_BZERO"]
    for tag, defs in (("getrandom", ["HAVE_GETRANDOM", "HAVE_SYS_RANDOM_H"]), ("arc4random", ["HAVE_ARC4RANDOM_BUF"]), ("urandom", [])):
        J = {L: {"entry": "rand_bytes", "disjunctive": True, "logEv": True, "syms": [], "dumpHash": False, "steps": 20000000,
                 "objs": [{"name": "dst", "size": L, "init": "uninit"}], "args": [{"ptr": "dst"}, {"int": L}]} for L in (1, 16, 24, 32, 64)}
        try:
            bc = ctx.bc("rng-" + tag, confh=base + defs, only=["randomness.c"], extra=["-include", preamble(ctx, tag)])
            res = ctx.run(bc, J)
        except fw.AnalysisError as e:
            ctx.undec("back end " + tag, str(e)[-300:])
            continue
        for L, d in res.items():
            for o in decided(ctx, d, "%s back end, %d bytes" % (tag, L)):
                r = o["ret"]
                ctx.require(r["lo"] == r["hi"], "definite result", "backendres|" + tag, "rand_bytes (%s back end): result neither success nor failure" % tag)
                if r["lo"] <= 0 <= r["hi"]:
                    runs = o["objs"]["dst"]["runs"]
                    ctx.require(clean(runs, 0, L), "backend delivers before success", "backend|" + tag, "rand_bytes (%s back end) can return 0 for %d bytes without having obtained them from the random source" % (tag, L))
                    ctx.require(all("RNG" in x["label"]["must"] for x in runs), "backend source", "backendsrc|" + tag, "rand_bytes (%s back end) returns bytes that do not come from the random source" % tag)


def preamble(ctx, tag):
    p = os.path.join(ctx.work, "pre_%s.h" % tag)
    with open(p, "w") as f:
        if tag != "getrandom":
            f.write("#include <features.h>\n#include <macros.h>\n#undef GLIBC_CHECK\n#define GLIBC_CHECK(a, b) 0\n")
            if tag == "arc4random":
                f.write("#include <stdlib.h>\n#include <stddef.h>\nvoid arc4random_buf(void*, size_t);\n")
    return p


def run(ctx):
    sets = scen.sets(ctx.tree)
    bc = ctx.bc("ossl")
    J, M = {}, {}
    for s in sets:
        A = suite.api(s)
        for k in ("keygen", "sign", "sign:exact capacity", "sign:null empty message"):
            J[(s.name, k)], M[(s.name, k)] = A[k][0], s
    res = ctx.run(bc, J)
    for k, d in res.items():
        (keygen if k[1] == "keygen" else sign)(ctx, M[k], d, "%s (%s)" % (M[k].fn(k[1].split(":")[0]), k[1]))
    giveup(ctx, bc, sets)
    backends(ctx, sets[0])
