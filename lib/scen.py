"""Scenario builders: entry points of the library with abstract arguments."""
import fw

OWFNAME = {}


class Set:
    """Sizes of one parameter set, from the values the build substitutes."""

    def __init__(self, name, v):
        self.name = name
        self.v = v
        self.pk, self.sk, self.sig = int(v["PK_SIZE"]), int(v["SK_SIZE"]), int(v["SIG_SIZE"])
        self.lam = int(v["LAMBDA"])
        self.lb = self.lam // 8
        self.half = self.pk // 2
        self.key = self.sk - self.half
        self.l = int(v["L"])
        self.tau, self.k0, self.k1, self.t0, self.t1 = (int(v[k]) for k in ("TAU", "K0", "K1", "T0", "T1"))
        self.ellhat = self.l // 8 + 2 * self.lb + 2
        self.utilde = self.lb + 2
        self.em = name.startswith("em_")

    def fn(self, op):
        return "faest_%s_%s" % (self.name, op)

    def depth(self, i):
        return self.k0 if i < self.t0 else self.k1

    def fields(self):
        """Signature layout as the specification defines it: [(name, off, len)]."""
        f, o = [], 0

        def add(n, ln):
            nonlocal o
            f.append((n, o, ln))
            o += ln

        for i in range(self.tau - 1):
            add("C%d" % i, self.ellhat)
        add("U", self.utilde)
        add("D", self.l // 8)
        add("A", self.lb)
        for i in range(self.tau):
            add("PDEC%d" % i, self.depth(i) * self.lb)
            add("COM%d" % i, 2 * self.lb)
        add("CHALL3", self.lb)
        add("IV", 16)
        return f


def sets(tree, names=None):
    return [Set(p, tree.params[p]) for p in (names or fw.PARAMS)]


PRG = {"prg": {"kind": "prg"}}
BCMP = {"faest_timingsafe_bcmp": {"kind": "bcmp"}}


OWFS = ["owf_%s%d" % (e, l) for e in ("", "em_") for l in (128, 192, 256)]


def owf_stub(s, outcomes="both"):
    return {n: {"kind": "owf", "key": s.key, "in": s.half, "out": s.half, "outcomes": outcomes} for n in OWFS}


def sk_obj(s, **kw):
    return dict({"name": "sk", "size": s.sk, "readonly": True,
                 "segs": [{"off": 0, "len": s.half, "atom": "PKIN"}, {"off": s.half, "len": s.key, "atom": "KEY"}]}, **kw)


def heavy_sign(s, rho="full", owf=None, slack=64, **kw):
    syms = [{"name": "mlen", "lo": 0, "hi": 2 ** 47}]
    objs = [{"name": "msg", "sizeSym": {"sym": "mlen"}, "maybeNull": True, "readonly": True, "atom": "MSG", "dump": False}, sk_obj(s),
            {"name": "sig", "size": s.sig + slack, "limit": s.sig, "init": "uninit"},
            {"name": "siglen", "size": 8, "init": "zero", "cells": [{"off": 0, "range": [s.sig, 2 ** 40]}]}]
    if rho == "full":
        objs.append({"name": "rho", "size": s.lb, "readonly": True, "atom": "RHO"})
        ra = [{"ptr": "rho"}, {"int": s.lb}]
    elif rho == "sym":
        syms.append({"name": "rlen", "lo": 0, "hi": 2 ** 40})
        objs.append({"name": "rho", "sizeSym": {"sym": "rlen"}, "readonly": True, "atom": "RHO", "dump": False})
        ra = [{"ptr": "rho"}, {"sym": "rlen"}]
    else:
        ra = [{"null": True}, {"int": 0}]
    stubs = dict(PRG, **BCMP)
    if owf:
        stubs.update(owf_stub(s, owf))
    d = {"entry": s.fn("sign_with_randomness"), "stubs": stubs, "syms": syms, "objs": objs, "secret": ["KEY", "RHO"], "dumpPrg": True,
         "args": [{"ptr": "sk"}, {"ptr": "msg"}, {"sym": "mlen"}] + ra + [{"ptr": "sig"}, {"ptr": "siglen"}]}
    d.update(kw)
    return d


def heavy_verify(s, segs=None, **kw):
    syms = [{"name": "mlen", "lo": 0, "hi": 2 ** 47}]
    sig = {"name": "sig", "size": s.sig, "readonly": True, "atom": "SIGIN"}
    if segs:
        sig["segs"] = segs
    objs = [{"name": "msg", "sizeSym": {"sym": "mlen"}, "maybeNull": True, "readonly": True, "atom": "MSG", "dump": False},
            {"name": "pk", "size": s.pk, "readonly": True, "atom": "PKB"}, sig]
    d = {"entry": s.fn("verify"), "stubs": dict(PRG, **BCMP), "syms": syms, "objs": objs, "secret": ["KEY", "RHO"], "dumpPrg": True,
         "args": [{"ptr": "pk"}, {"ptr": "msg"}, {"sym": "mlen"}, {"ptr": "sig"}, {"int": s.sig}]}
    d.update(kw)
    return d


# ---------------------------------------------------------------- contract mode (path-sensitive, operations stubbed)
def contract(s, op, args, objs, syms=(), owf="both", realrng=True, **kw):
    stubs = dict(BCMP)
    stubs.update(owf_stub(s, owf))
    stubs["faest_sign"] = {"kind": "sign", "size": s.sig, "half": s.half, "key": s.key}
    stubs["faest_verify"] = {"kind": "verify", "half": s.half}
    d = {"entry": op if op.startswith("crypto") else s.fn(op), "disjunctive": True, "logEv": True, "stubs": stubs, "syms": list(syms), "objs": objs, "args": args,
         "dumpHash": False}
    d.update(kw)
    return d


def buf(name, size, **kw):
    return dict({"name": name, "size": size}, **kw)
