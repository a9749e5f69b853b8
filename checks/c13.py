"""C13: clearing a private key erases every byte and cannot be optimised away."""
import os

import fw
import ir
import scen
import suite

SPEC = {
    "level": "other",
    "technique": "abstract interpretation of the clear function, before and after the compiler's dead-store elimination in a caller that releases the key",
    "note": "Twelve sets, with and without the platform's explicit_bzero; the optimised form is LLVM's at -O2 and -O3 after linking and inlining the library into the caller.",
    "explain": "(1) The clear function is interpreted on a key with unknown content: afterwards each byte must be the constant 0 and the bytes behind untouched. (2) A caller that allocates a key, obtains its content from outside, clears it and frees it is linked with the library and optimised with inlining; the optimised code is interpreted and the content of the block at free() must still be zero, so the stores survived although they are dead.",
    "rule": "after clear: key[0,K) = 0, key[K,K+64) unchanged; in optimised callers the freed block is all zero on the clearing path",
    "assumptions": ["explicit_bzero, OPENSSL_cleanse and memset_s erase and are never removed", "LLVM's optimiser stands for compilers"],
}
PROBE = '''#include <stdlib.h>
#include <stdint.h>
#include <sys/types.h>
#include "faest_%(n)s.h"
ssize_t getrandom(void*, size_t, unsigned);
int probe_%(n)s(void) { uint8_t* k = malloc(%(k)d); if (!k) return 1; if (getrandom(k, %(k)d, 0) != %(k)d) { free(k); return 2; } faest_%(n)s_clear_private_key(k); free(k); return 0; }
'''


def direct(ctx, cn, bc, sets):
    for s, d in ctx.run(bc, {s: suite.api(s)["clear"][0] for s in sets}).items():
        f = s.fn("clear_private_key")
        for o in d["outcomes"]:
            cov = 0
            for r in o["objs"]["sk"]["runs"]:
                a, b = r["off"], r["off"] + r["len"]
                if a < s.sk:
                    z = r["kind"] == "const" and r.get("value") == 0 or r["kind"] == "cell" and r.get("lo") == r.get("hi") == 0
                    ctx.require(z, "key byte zero", "zero", "%s (%s): bytes %d.. of the key are not zero afterwards" % (f, cn, a))
                    cov += min(b, s.sk) - a
                if b > s.sk:
                    keep = r["kind"] == "id" and r.get("name", "").startswith("I:sk+%d" % max(a, s.sk)) and a >= s.sk
                    ctx.require(keep, "bytes behind the key untouched", "slack", "%s (%s): writes behind the key (byte %d)" % (f, cn, max(a, s.sk)))
            ctx.require(cov == s.sk, "all key bytes seen", "cover", "%s: %d of %d key bytes" % (f, cov, s.sk))


def optimised(ctx, cn, confh, sets):
    bc = ctx.bc("clear-" + cn, confh=confh, sets=[s.name for s in sets])
    outs = []
    for s in sets:
        c = os.path.join(ctx.work, "probe_%s_%s.c" % (cn, s.name))
        with open(c, "w") as f:
            f.write(PROBE % {"n": s.name, "k": s.sk})
        outs.append(ctx.tree.compile(c, "probe", [], [ctx.tree.gen, ctx.tree.repo], c + ".bc"))
    lk = os.path.join(ctx.work, "probe_%s.bc" % cn)
    fw.sh(["llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link"] + outs + [bc, "-o", lk])
    for lvl in ("O2", "O3"):
        ob = lk + "." + lvl
        fw.sh([ir.tool("opt"), "-passes=internalize,default<%s>" % lvl, "-internalize-public-api-list=" + ",".join("probe_" + s.name for s in sets), "-vectorize-loops=false", "-vectorize-slp=false", lk, "-o", ob])
        J = {s: {"entry": "probe_" + s.name, "disjunctive": True, "logEv": True, "dumpHash": False, "syms": [], "objs": [], "args": []} for s in sets}
        for s, d in ctx.run(ob, J).items():
            seen = 0
            for o in d["outcomes"]:
                if o["ret"]["lo"] == o["ret"]["hi"] == 0:
                    fr = [e for e in o["events"] if e["ev"] == "free"]
                    seen += len(fr)
                    for e in fr:
                        ctx.require(e["notZero"] == 0, "erasure survives optimisation", "dead-store|" + cn, "%s: in a caller that frees the key afterwards, -%s removes the erasure (%s): %d of %d bytes of the key remain" % (s.fn("clear_private_key"), lvl, cn, e["notZero"], s.sk))
            if not seen:
                ctx.undec("probe %s %s" % (cn, s.name), "no clearing path in the optimised probe")


def run(ctx):
    sets = scen.sets(ctx.tree)
    base = ["HAVE_ALIGNED_ALLOC", "HAVE_GETRANDOM", "HAVE_SYS_RANDOM_H"]
    for cn, confh in (("explicit_bzero", base + ["HAVE_EXPLICIT_BZERO"]), ("fallback", base)):
        direct(ctx, cn, ctx.bc("clear-" + cn, confh=confh, sets=[s.name for s in sets]), sets)
        optimised(ctx, cn, confh, sets)
    direct(ctx, "self-contained", ctx.bc("port", openssl=False, ndebug=True), sets)
