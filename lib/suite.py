"""Scenario collections shared by the checks."""
import scen

S47 = 2 ** 47
MSG = {"name": "msg", "sizeSym": {"sym": "mlen"}, "maybeNull": True, "readonly": True, "atom": "MSG", "dump": False}
MSY = {"name": "mlen", "lo": 0, "hi": S47}
NULL = {"null": True}


def P(n, off=0):
    return {"ptr": n, "off": off}


def api(s):
    """Contract scenarios of one parameter set: {name: (scenario, meta)}.
    meta: op, good (True: acceptable arguments, False: must be rejected untouched), outs: output objects."""
    J = {}
    pk_out = {"name": "pk", "size": s.pk, "init": "uninit"}
    sk_out = {"name": "sk", "size": s.sk, "init": "uninit"}
    pk_in = {"name": "pk", "size": s.pk, "readonly": True, "atom": "PKB"}
    sk_in = scen.sk_obj(s)
    sig_out = {"name": "sig", "size": s.sig + 64, "limit": s.sig, "init": "uninit"}
    sig_in = {"name": "sig", "size": s.sig, "readonly": True, "atom": "SIGIN"}
    rho = {"name": "rho", "size": s.lb, "readonly": True, "atom": "RHO"}

    def sl(lo, hi):
        return {"name": "siglen", "size": 8, "init": "zero", "cells": [{"off": 0, "range": [lo, hi]}]}

    def add(name, op, args, objs, good, outs=(), syms=(), **meta):
        J[name] = (scen.contract(s, op, args, objs, syms), dict(op=op, good=good, outs=list(outs), **meta))

    add("keygen", "keygen", [P("pk"), P("sk")], [pk_out, sk_out], True, ["pk", "sk"])
    add("keygen:pk null", "keygen", [NULL, P("sk")], [sk_out], False, ["sk"])
    add("keygen:sk null", "keygen", [P("pk"), NULL], [pk_out], False, ["pk"])
    add("keygen:both null", "keygen", [NULL, NULL], [], False)
    add("validate", "validate_keypair", [P("pk"), P("sk")], [pk_in, sk_in], True)
    add("validate:pk null", "validate_keypair", [NULL, P("sk")], [sk_in], False)
    add("validate:sk null", "validate_keypair", [P("pk"), NULL], [pk_in], False)
    add("validate:both null", "validate_keypair", [NULL, NULL], [], False)
    big = sl(s.sig, -1)
    big["cells"] = [{"off": 0, "range": [s.sig, -1]}]
    for op, pre in (("sign", "sign"), ("sign_with_randomness", "sign_wr")):
        wr = op != "sign"
        ra = [P("rho"), {"int": s.lb}] if wr else []
        ro = [rho] if wr else []
        m = [P("msg"), {"sym": "mlen"}]
        outs = ["sig", "siglen"]
        add(pre, op, [P("sk")] + m + ra + [P("sig"), P("siglen")], [MSG, sk_in, sig_out, big] + ro, True, outs, [MSY])
        add(pre + ":exact capacity", op, [P("sk")] + m + ra + [P("sig"), P("siglen")], [MSG, sk_in, dict(sig_out, size=s.sig), sl(s.sig, s.sig)] + ro, True, outs, [MSY])
        add(pre + ":null empty message", op, [P("sk"), NULL, {"int": 0}] + ra + [P("sig"), P("siglen")], [sk_in, sig_out, big] + ro, True, outs)
        add(pre + ":sk null", op, [NULL] + m + ra + [P("sig"), P("siglen")], [MSG, sig_out, big] + ro, False, outs, [MSY])
        add(pre + ":sig null", op, [P("sk")] + m + ra + [NULL, P("siglen")], [MSG, sk_in, big] + ro, False, ["siglen"], [MSY])
        add(pre + ":siglen null", op, [P("sk")] + m + ra + [P("sig"), NULL], [MSG, sk_in, sig_out] + ro, False, ["sig"], [MSY])
        add(pre + ":all null", op, [NULL, NULL, {"int": 0}] + ([NULL, {"int": 0}] if wr else []) + [NULL, NULL], [], False)
        for lo, hi in ((0, s.sig - 1), (s.sig - 1, s.sig - 1)):
            add(pre + ":capacity %d..%d" % (lo, hi), op, [P("sk")] + m + ra + [P("sig"), P("siglen")], [MSG, sk_in, dict(sig_out, size=max(lo, 1)), sl(lo, hi)] + ro, False, outs, [MSY])
        if wr:
            add(pre + ":rho null", op, [P("sk")] + m + [NULL, {"range": [1, -1]}, P("sig"), P("siglen")], [MSG, sk_in, sig_out, big], False, outs, [MSY])
            add(pre + ":rho null empty", op, [P("sk")] + m + [NULL, {"int": 0}, P("sig"), P("siglen")], [MSG, sk_in, sig_out, big], True, outs, [MSY])
            add(pre + ":rho empty", op, [P("sk")] + m + [P("rho"), {"int": 0}, P("sig"), P("siglen")], [MSG, sk_in, sig_out, big, rho], True, outs, [MSY])
            add(pre + ":rho any length", op, [P("sk")] + m + [P("rho"), {"sym": "rlen"}, P("sig"), P("siglen")],
                [MSG, sk_in, sig_out, big, {"name": "rho", "sizeSym": {"sym": "rlen"}, "maybeNull": True, "readonly": True, "atom": "RHO", "dump": False}], True, outs, [MSY, {"name": "rlen", "lo": 0, "hi": 2 ** 40}])
    m = [P("msg"), {"sym": "mlen"}]
    add("verify", "verify", [P("pk")] + m + [P("sig"), {"int": s.sig}], [MSG, pk_in, sig_in], True, syms=[MSY])
    add("verify:null empty message", "verify", [P("pk"), NULL, {"int": 0}, P("sig"), {"int": s.sig}], [pk_in, sig_in], True)
    add("verify:pk null", "verify", [NULL] + m + [P("sig"), {"int": s.sig}], [MSG, sig_in], False, syms=[MSY])
    add("verify:sig null", "verify", [P("pk")] + m + [NULL, {"int": s.sig}], [MSG, pk_in], False, syms=[MSY])
    add("verify:short", "verify", [P("pk")] + m + [P("sig"), {"range": [0, s.sig - 1]}], [MSG, pk_in, dict(sig_in, size=1)], False, syms=[MSY])
    add("verify:long", "verify", [P("pk")] + m + [P("sig"), {"range": [s.sig + 1, -1]}], [MSG, pk_in, sig_in], False, syms=[MSY])
    add("clear", "clear_private_key", [P("sk")], [{"name": "sk", "size": s.sk + 64, "atom": "KEY"}], True)
    return J


def heavy(s, rhos=("full",)):
    J = {}
    for r in rhos:
        J["sign/rho " + r] = scen.heavy_sign(s, rho=r)
    J["verify"] = scen.heavy_verify(s)
    J["validate"] = {"entry": s.fn("validate_keypair"), "secret": ["KEY"], "dumpHash": False,
                     "objs": [{"name": "pk", "size": s.pk, "readonly": True, "atom": "PKB"}, scen.sk_obj(s)], "args": [P("pk"), P("sk")]}
    return J


def prg(lam, n, iv=None, name="prg"):
    ivo = {"name": "iv", "size": 16, "readonly": True, "atom": "IV"}
    if iv:
        ivo["segs"] = iv
    return {"entry": "prg", "syms": [], "secret": ["KEY"], "dumpHash": False,
            "objs": [{"name": "key", "size": lam // 8, "readonly": True, "atom": "KEY"}, ivo, {"name": "out", "size": n + 64, "limit": n, "init": "uninit"}],
            "args": [P("key"), P("iv"), P("out"), {"int": lam}, {"int": n}]}


def wrappers(s, stub=True):
    """crypto_sign family; every pointer valid, including overlapping buffers."""
    J = {}
    n = s.name
    call = {s.fn("sign"): {"kind": "call", "rets": [0, -1], "writes": [{"arg": 3, "n": s.sig}, {"arg": 4, "n": s.sig, "size_t": True}]},
            s.fn("verify"): {"kind": "call", "rets": [0, -1]},
            s.fn("keygen"): {"kind": "call", "rets": [0, -1], "writes": [{"arg": 0, "n": s.pk}, {"arg": 1, "n": s.sk}], "writesOnFail": True}}
    base = {"disjunctive": True, "logEv": True, "stubs": call, "dumpHash": False}
    u64 = {"size": 8, "init": "uninit"}
    J["keypair"] = dict(base, entry="crypto_sign_keypair__" + n, syms=[], objs=[{"name": "pk", "size": s.pk, "init": "uninit"}, {"name": "sk", "size": s.sk, "init": "uninit"}], args=[P("pk"), P("sk")])
    sym = [{"name": "mlen", "lo": 0, "hi": S47}]
    J["sign"] = dict(base, entry="crypto_sign__" + n, syms=sym, args=[P("sm"), P("smlen"), P("msg"), {"sym": "mlen"}, P("sk")],
                     objs=[MSG, scen.sk_obj(s), {"name": "sm", "sizeSym": {"sym": "mlen", "c": s.sig}, "init": "uninit", "dump": False}, dict(u64, name="smlen")])
    J["sign overlap"] = dict(base, entry="crypto_sign__" + n, syms=sym, args=[P("sm"), P("smlen"), P("sm"), {"sym": "mlen"}, P("sk")],
                             objs=[scen.sk_obj(s), {"name": "sm", "sizeSym": {"sym": "mlen", "c": s.sig}, "atom": "MSG", "dump": False}, dict(u64, name="smlen")])
    pk = {"name": "pk", "size": s.pk, "readonly": True}
    J["open"] = dict(base, entry="crypto_sign_open__" + n, syms=sym, args=[P("m"), P("mlen"), P("sm"), {"sym": "mlen", "c": s.sig}, P("pk")],
                     objs=[pk, {"name": "sm", "sizeSym": {"sym": "mlen", "c": s.sig}, "readonly": True, "atom": "MSG", "dump": False}, {"name": "m", "sizeSym": {"sym": "mlen"}, "init": "uninit", "dump": False}, dict(u64, name="mlen")])
    J["open overlap"] = dict(base, entry="crypto_sign_open__" + n, syms=sym, args=[P("sm"), P("mlen"), P("sm"), {"sym": "mlen", "c": s.sig}, P("pk")],
                             objs=[pk, {"name": "sm", "sizeSym": {"sym": "mlen", "c": s.sig}, "atom": "MSG", "dump": False}, dict(u64, name="mlen")])
    J["open short"] = dict(base, entry="crypto_sign_open__" + n, syms=[{"name": "smlen", "lo": 0, "hi": s.sig - 1}], args=[P("m"), P("mlen"), P("sm"), {"sym": "smlen"}, P("pk")],
                           objs=[pk, {"name": "sm", "sizeSym": {"sym": "smlen"}, "readonly": True, "atom": "MSG", "dump": False}, {"name": "m", "size": 1, "init": "uninit"}, dict(u64, name="mlen")])
    return J
