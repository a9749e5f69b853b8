"""C01: secrets never steer branches, addresses or variable-time operations."""
import scen

SPEC = {
    "level": "other",
    "technique": "whole-program information-flow (taint) analysis by abstract interpretation of LLVM IR",
    "note": "Sound over-approximation of explicit flows into every branch, address, length, division and select, for all inputs, twelve parameter sets, OpenSSL and self-contained builds; relies on the documented models of libc/OpenSSL.",
    "explain": "Whole-program information-flow analysis by abstract interpretation of the LLVM IR of every parameter set: each conditional branch, switch, memory address, length, division, comparison operand and select reached from signing, key generation and validation is an obligation, discharged when the may-label of the value is disjoint from the secret labels.",
    "rule": "may-label of every branch/address/length/division/select operand contains no secret source (secret key, signing randomness, system randomness) and no hash output that is not published in the signature or part of the challenge chain of a published challenge.",
    "assumptions": ["the verdict returned by the one-way function and by the constant-time comparison is public (C01 states so)",
                    "OpenSSL and libc primitives are constant time", "the compiler keeps the branch structure of the unoptimised IR"],
}
CT = ("ct-",)
DECL = scen.OWFS + ["faest_timingsafe_bcmp"]


def secret_atoms(d):
    recs = {h["n"]: h for h in d.get("hashes", [])}
    pub = set()       # challenge atoms that are public
    chain = []
    for o in d["outcomes"]:
        for r in o["objs"].get("sig", {}).get("runs", []):
            if r["kind"] == "id" and r["name"].startswith("H"):
                n, off = (int(x) for x in r["name"][1:].split("+"))
                h = recs.get(n)
                for (so, sl, at) in (h or {}).get("sq", []):
                    if off <= so and so + sl <= off + r["len"] and at:
                        pub.add(at)
                        if len(h["sq"]) == 1:
                            chain.append(n)
    seen = set()
    while chain:
        n = chain.pop()
        if n in seen:
            continue
        seen.add(n)
        h = recs[n]
        for alt in h["alts"]:
            suf = alt["segs"][-1]
            for sg in alt["segs"]:
                if sg.startswith("H"):
                    m, rest = sg[1:].split("+")
                    off, ln = (int(x) for x in rest.split(":"))
                    q = recs.get(int(m))
                    if q and len(q["sq"]) == 1 and off == 0 and ln == q["sq"][0][1] and q["alts"] and q["alts"][0]["segs"][-1] == suf:
                        if q["sq"][0][2]:
                            pub.add(q["sq"][0][2])
                        chain.append(int(m))
    return pub



def judge(ctx, d, secret, what):
    pub = secret_atoms(d)
    for r in d["reports"]:
        if not r["kind"].startswith("ct-"):
            continue
        may = set(r["label"]["may"])
        bad = sorted(x for x in may if x in secret or (x.startswith("CH") and x not in pub))
        if bad:
            ctx.violation("%s|%s" % (r["kind"], r["where"]), "%s: %s at %s depends on %s (call path %s)" % (what, r["msg"], r["where"], ",".join(bad), r["stack"]), where=r["where"], stack=r["stack"], label=bad)
    st = d["stats"]
    ctx.ok("operand sites: " + what.split(" ")[0], st["branchSites"] + st["memSites"])


def prg_scen(s, outlen):
    return {"entry": "prg", "syms": [], "secret": ["KEY"], "dumpHash": False,
            "objs": [{"name": "key", "size": s.lb, "readonly": True, "atom": "KEY"}, {"name": "iv", "size": 16, "readonly": True, "atom": "IV"},
                     {"name": "out", "size": outlen, "init": "uninit", "dump": False}],
            "args": [{"ptr": "key"}, {"ptr": "iv"}, {"ptr": "out"}, {"int": s.lam}, {"int": outlen}]}


def hash_scen(fam, lam, chunks, out):
    """Absorb secret chunks, squeeze: the real sponge and permutation are analysed."""
    x4 = fam.endswith("_x4")
    objs = [{"name": "ctx", "size": 4096, "init": "uninit", "dump": False, "align": 64}, {"name": "src", "size": 4096, "readonly": True, "atom": "KEY", "dump": False},
            {"name": "dst", "size": 4096, "init": "uninit", "dump": False}]
    calls = [{"entry": fam + "_init", "args": [{"ptr": "ctx"}, {"int": lam}]}]
    for c in chunks:
        calls.append({"entry": fam + "_update", "args": [{"ptr": "ctx"}] + [{"ptr": "src", "off": 1024 * k} for k in range(4 if x4 else 1)] + [{"int": c}]})
    if fam == "H0":
        fin = [{"ptr": "dst"}, {"int": lam // 8}, {"ptr": "dst", "off": 512}, {"int": lam // 4}]
    elif fam == "H0_x4":
        fin = [{"ptr": "dst", "off": 128 * k} for k in range(4)] + [{"int": lam // 8}] + [{"ptr": "dst", "off": 1024 + 128 * k} for k in range(4)] + [{"int": lam // 4}]
    elif fam == "H3":
        fin = [{"ptr": "dst"}, {"int": lam // 8}, {"ptr": "dst", "off": 512}]
    else:
        fin = [{"ptr": "dst"}, {"int": out}]
    calls.append({"entry": fam + "_final", "args": [{"ptr": "ctx"}] + fin})
    return {"calls": calls, "realKeccak": True, "secret": ["KEY"], "objs": objs, "syms": [], "dumpHash": False}


def run(ctx):
    sets = scen.sets(ctx.tree)
    ossl = ctx.bc("ossl")
    port = ctx.bc("port", openssl=False, ndebug=True)
    jobs, bcs, meta = {}, {}, {}

    def add(key, bc, q, secret, what):
        jobs[key], bcs[key], meta[key] = q, bc, (set(secret), what)

    for s in sets:
        add(("sign", s.name), ossl, scen.heavy_sign(s, declassRet=DECL), ["KEY", "RHO"], "signing (%s)" % s.name)
        if ctx.thorough:
            for rho in ("sym", "none"):
                add(("sign" + rho, s.name), port, scen.heavy_sign(s, rho=rho, declassRet=DECL), ["KEY", "RHO"], "signing (%s, rho %s, self-contained)" % (s.name, rho))
        for nm, bc in (("ossl", ossl),) + ((("port", port),) if ctx.thorough else ()):
            add(("validate", nm, s.name), bc, {"entry": s.fn("validate_keypair"), "declassRet": DECL, "secret": ["KEY"], "dumpHash": False, "verdictEq": {"obj": "pk", "off": s.half, "len": s.pk - s.half},
                "objs": [{"name": "pk", "size": s.pk, "readonly": True, "atom": "PKB"}, scen.sk_obj(s)], "args": [{"ptr": "pk"}, {"ptr": "sk"}]}, ["KEY"], "validation (%s)" % s.name)
        add(("keygen", s.name), ossl, scen.contract(s, "keygen", [{"ptr": "pk"}, {"ptr": "sk"}], [{"name": "pk", "size": s.pk, "init": "uninit"}, {"name": "sk", "size": s.sk, "init": "uninit"}], secret=["RNG"]), ["RNG"], "key generation (%s)" % s.name)
    for lam in (128, 192, 256):
        s = [x for x in sets if x.lam == lam][0]
        for n in (1, 15, 16, 17, 33, 48, 64, 3510):
            for nm, bc in (("ossl", ossl), ("port", port)):
                add(("prg", nm, lam, n), bc, prg_scen(s, n), ["KEY"], "prg (%s, %d bits, %d bytes)" % (nm, lam, n))
        for fam in ("H0", "H0_x4", "H1", "H2", "H3"):
            add(("hash", fam, lam), ossl, hash_scen(fam, lam, (1, 16, lam // 8, 200, 336), 64), ["KEY"], "hash (%s, %d bits)" % (fam, lam))
    if ctx.thorough:
        p32 = ctx.bc("plain32", sha3="plain32")
        for lam in (128, 192, 256):
            for fam in ("H0", "H0_x4", "H1", "H2", "H3"):
                add(("hash32", fam, lam), p32, hash_scen(fam, lam, (1, 16, lam // 8, 200, 336), 64), ["KEY"], "hash (plain32 %s, %d bits)" % (fam, lam))
    add(("bcmp",), ossl, {"entry": "faest_timingsafe_bcmp", "secret": ["KEY"], "dumpHash": False, "verdictEq": {"obj": "a", "len": 64}, "objs": [{"name": "a", "size": 64, "readonly": True, "atom": "KEY"}, {"name": "b", "size": 64, "readonly": True, "atom": "KEY"}],
        "args": [{"ptr": "a"}, {"ptr": "b"}, {"int": 64}]}, ["KEY"], "constant-time comparison")
    res = ctx.run(bcs, jobs)
    for k, d in res.items():
        judge(ctx, d, *meta[k])
