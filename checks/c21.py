"""C21: no arithmetic or access relies on behaviour the language leaves undefined."""
import os
import re

import full
import fw

SPEC = {
    "level": "other",
    "technique": "abstract interpretation: congruence analysis of pointer alignment, interval analysis of shift amounts, divisors and signed results, reachability of undefined statements",
    "note": "All contents and lengths of the byte buffers of the interface, which may start at any address; heap blocks are 16-byte aligned unless allocated otherwise.",
    "explain": "Every public operation of every parameter set is interpreted over LLVM IR; each load, store and memory intrinsic carries the alignment its C type promises, each signed operation the no-overflow promise of the language.",
    "rule": "object alignment and offset residue satisfy the alignment of the access; shift amount < width; divisor nonzero; signed result representable; no path reaches a statement the source declares unreachable",
    "assumptions": ["malloc and calloc return 16-byte aligned blocks"],
}

KINDS = ("misaligned", "overflow", "shift", "div-zero", "end-reached", "bad-align")
BYTES = ("pk", "sk", "msg", "rho", "sig", "sm", "m", "key", "iv", "out", "src", "dst", "a", "b", "chall")


def with_ub(q):
    q = dict(q, ub=True)
    if "objs" in q:
        q["objs"] = [dict(o, align=8 if o["name"] in ("siglen", "smlen", "mlen") else 1) if o["name"] in BYTES + ("siglen", "smlen", "mlen") and "align" not in o else o for o in q["objs"]]
    return q


def word_access_of_sponge(r):
    """Word-sized accesses of the permutation's back ends to the caller's data: the build declares per platform whether they are permitted (see build switches below)."""
    m = re.search(r"assumes (\d+)-byte", r["msg"])
    return r["kind"] == "misaligned" and "(KeccakP-" in r["where"] and m and int(m.group(1)) <= 8


def switches(ctx):
    """Every switch the build passes to select platform behaviour is consulted by a source file."""
    build = open(os.path.join(fw.REPO, "meson.build")).read()
    text = {}
    for root, dirs, files in os.walk(fw.REPO):
        dirs[:] = [d for d in dirs if d not in ("_build", "tests", "catch2", ".git")]
        for f in files:
            if f.endswith((".c", ".h", ".inc", ".in", ".macros")):
                text[os.path.join(root, f)] = open(os.path.join(root, f), errors="replace").read()
    for name in sorted(set(re.findall(r"'-D([A-Za-z][A-Za-z0-9_]*)", build))):
        if name == "FAEST_TESTS":
            continue
        ok = any(re.search(r"^\s*#\s*(?:if|elif|ifdef|ifndef)\b.*\b%s\b" % name, re.sub(r"\\\n", " ", t), re.M) for t in text.values())
        ctx.require(ok, "build switch is consulted", "switch|" + name, "the build passes -D%s but no source file tests it: the platform behaviour it selects is not in effect" % name)


def run(ctx):
    switches(ctx)
    sets, J, B = full.jobs(ctx)
    J = {k: with_ub(q) for k, q in J.items()}
    res = ctx.run(B, J, partial=True)
    for k, d in res.items():
        ctx.reports(d, KINDS, "undefined behaviour", filt=lambda r: not word_access_of_sponge(r))
        for r in d["reports"]:
            if r["kind"] in ("undecided-shift", "undecided-div"):
                ctx.undec("%s|%s" % (r["kind"], r["where"]), r["msg"])
        ctx.ok("alignment obligations (%s)" % k[0], d["stats"]["alignChecks"])
        ctx.ok("signed operations (%s)" % k[0], d["stats"]["signedOps"])
    ctx.samples.append({"scenarios": len(J), "alignment not decided": sum(d["stats"]["alignUndecided"] for d in res.values()), "overflow not decided": sum(d["stats"]["overflowUndecided"] for d in res.values())})
