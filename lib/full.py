"""The full scenario set: every public operation, every parameter set, both builds; used by the memory, leak and initialisation checks."""
import scen
import suite

LENS = (0, 1, 15, 16, 17, 32, 33, 47, 48, 64, 255, 256, 3510)


def jobs(ctx, hashes=True, status=False):
    sets = scen.sets(ctx.tree)
    ossl = ctx.bc("ossl-w", wrappers=True)
    port = ctx.bc("port-w", openssl=False, ndebug=True, wrappers=True)
    J, B = {}, {}

    def add(key, bc, q):
        J[key], B[key] = q, bc

    for s in sets:
        rhos = ("full", "sym", "none") if ctx.thorough else (("full", "sym") if s.name.endswith("f") and s.name in ("128f", "em_192f") else ("full",))
        for k, q in suite.heavy(s, rhos).items():
            add(("heavy", s.name, k), ossl, q)
            if ctx.thorough:
                add(("heavy-port", s.name, k), port, q)
        for k, (q, meta) in suite.api(s).items():
            add(("api", s.name, k), ossl, q)
            if ctx.thorough:
                add(("api-port", s.name, k), port, q)
        for k, q in suite.wrappers(s).items():
            add(("crypto_sign", s.name, k), ossl, q)
    for lam in (128, 192, 256):
        for n in LENS:
            add(("prg", lam, n), ossl, suite.prg(lam, n))
            if status:
                add(("prg-status", lam, n), ossl, dict(suite.prg(lam, n), evpFail=True))
            add(("prg-port", lam, n), port, suite.prg(lam, n))
    for n in ("0", "1", "15", "16", "17"):
        add(("bcmp", n), ossl, {"entry": "faest_timingsafe_bcmp", "dumpHash": False, "objs": [{"name": "a", "size": max(1, int(n)), "readonly": True}, {"name": "b", "size": max(1, int(n)), "readonly": True}],
                                "args": [{"ptr": "a"}, {"ptr": "b"}, {"int": int(n)}]})
    if hashes:
        import c01
        for lam in (128, 192, 256):
            for fam in ("H0", "H0_x4", "H1", "H2", "H3"):
                for ch in ((1, 16, lam // 8, 200, 336), (167, 1, 168, 169), (135, 1, 136, 137)):
                    add(("hash", fam, lam, ch), ossl, c01.hash_scen(fam, lam, ch, 300))
        if ctx.thorough:
            p32 = ctx.bc("plain32", sha3="plain32")
            for lam in (128, 192, 256):
                for fam in ("H0", "H0_x4", "H1", "H2", "H3"):
                    for ch in ((1, 16, lam // 8, 200, 336), (167, 1, 168, 169), (135, 1, 136, 137)):
                        add(("hash32", fam, lam, ch), p32, c01.hash_scen(fam, lam, ch, 300))
    return sets, J, B
