"""C04: the whole message is authenticated, whatever its length."""
import re

import ir
import scen
import trans

SPEC = {
    "level": "other",
    "technique": "symbolic-length transcript extraction, length-narrowing dataflow lint, and per-byte label propagation through the sponge",
    "note": "Transcript and narrowing parts hold for every message length; the sponge buffering part enumerates lengths and splits up to several blocks and is decided per byte for all contents.",
    "explain": "(1) signing and verification of each set are interpreted with a message of symbolic length m: the digest of the message must absorb exactly msg[0;m] once on every path. (2) The public entry points must hand pointer and length on unchanged. (3) From hash update to the sponge no value derived from the length may be narrowed while it can exceed the narrower type. (4) For enumerated splits of the input each absorbed byte carries its own label: it must reach exactly its lane of the state, and all labels must reach every squeezed byte.",
    "rule": "msg[0;m] absorbed exactly once; no lossy truncation of a length; state lane j carries exactly the labels of the bytes at positions = j mod rate; number of permutations = full blocks (+1 at finalisation)",
    "assumptions": ["XOR of a labelled byte into a lane is not undone later (must-labels)"],
}
MSG = {"name": "msg", "sizeSym": {"sym": "mlen"}, "maybeNull": True, "readonly": True, "atom": "MSG", "dump": False}
SY = [{"name": "mlen", "lo": 0, "hi": 2 ** 47}]
SPONGE = ["random_oracle.c", "sha3/KeccakHash.c", "sha3/KeccakSponge.c", "sha3/KeccakHashtimes4.c", "sha3/KeccakSpongetimes4.c"]
PERM = {"opt64": ["sha3/opt64/KeccakP-1600-opt64.c", "sha3/opt64/KeccakP-1600-times4-on1.c"],
        "plain32": ["sha3/plain32/KeccakP-1600-inplace32BI.c", "sha3/plain32/KeccakP-1600-times4-on1.c"]}


def transcripts(ctx, sets, bc, tag):
    jobs = {}
    for s in sets:
        jobs[(s.name, "sign")] = scen.heavy_sign(s, owf="true")
        jobs[(s.name, "verify")] = scen.heavy_verify(s)
    for q in jobs.values():    # follow the length value as well
        q["narrow"] = "LEN"
        q["args"] = [dict(a, atom="LEN") if a == {"sym": "mlen"} else a for a in q["args"]]
    res = ctx.run(bc, jobs)
    for (name, role), d in sorted(res.items()):
        for r in d["reports"]:
            if r["kind"] == "narrow":
                ctx.violation("narrow|" + r["where"], "%s (%s): %s at %s: long messages are not absorbed correctly (call path %s)" % (role, name, r["msg"], r["where"], r["stack"]), where=r["where"], stack=r["stack"])
        ctx.ok("narrowing sites", d["stats"]["narrowSites"])
    todo, by = {}, {s.name: s for s in sets}
    for (name, role), d in sorted(res.items()):
        found = 0
        for h in d["hashes"]:
            alts = [(trans.parse(a["segs"]), a.get("symc", [])) for a in h["alts"]]
            if not any(t[0] == "SYM:msg" or t[0].startswith("?raw:Y:msg") for toks, _ in alts for t in toks):
                if "MSG" in h["label"]["may"] and not any(t[0][0] == "H" for toks, _ in alts for t in toks) and h["unbounded"]:
                    todo.setdefault((by[name].lam, role), (by[name], []))[1].append(h["stack"])
                    found += 1
                continue
            found += 1
            if h["unbounded"]:
                todo.setdefault((by[name].lam, role), (by[name], []))[1].append(h["stack"])
                continue
            for toks, symc in alts:
                pieces = [t for t in toks if t[0] == "SYM:msg"]
                zero = any(c == [0, 0] for c in symc[1:2])
                good = [t[1] for t in pieces] == ["0;mlen"] or (not pieces and zero) or tiles([t[1] for t in pieces])
                ctx.require(good, "whole message absorbed once", "%s|msg|%s" % (role, h["where"]), "%s (%s): the message digest absorbs %s instead of msg[0;mlen] (message length in %s) at %s" % (role, name, ["msg[%s]" % t[1] for t in pieces], symc[1:2] or "any", h["stack"]))
        ctx.require(found == 1, "one message digest", "%s|one" % role, "%s (%s): the message is absorbed by %d digests instead of one" % (role, name, found))
    if todo:
        piecewise(ctx, sets, bc, todo)


CUT = ("vole_commit", "vole_reconstruct", "vole_hash", "aes_extend_witness", "aes_prove", "aes_verify", "vector_open", "ChalDec", "xor_u8_array", "masked_xor_u8_array", "vec_com_clear")


def lengths(consts):
    out = {0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 135, 136, 137, 167, 168, 169, 272, 336, 1000}
    for c in sorted(consts):
        out |= {max(0, x) for x in (c - 1, c, c + 1, c + 2, 2 * c - 1, 2 * c, 2 * c + 1, 3 * c + 5)}
    return sorted(x for x in out if x <= 1 << 21)


def piecewise(ctx, sets, bc, todo):
    """The message is absorbed by a loop: the symbolic transcript does not decide it.  The transcript is extracted for every
    message length around the constants that the absorbing functions use instead."""
    g = ir.IR(bc)
    jobs = {}
    for (lam, role), (s, stacks) in sorted(todo.items()):
        fs = {x.split("@")[0].split(":")[0].strip() for st in stacks for x in re.split(r" ?(?:<-|->|<|>|/|,) ?", st)}
        cs = ir.thresholds(g, [f for f in fs if f in g.body and len(g.body[f]) < 400])
        cs = set(sorted(cs)[-24:])
        for n in lengths(cs):
            q = scen.heavy_sign(s, owf="true") if role == "sign" else scen.heavy_verify(s)
            q = dict(q, syms=[], stubs=dict(q["stubs"], **{f: {"kind": "nop"} for f in CUT if f in g.body}), steps=30000000, tolerant=True)
            q["objs"] = [dict(name="msg", size=max(n, 1), readonly=True, atom="MSG", dump=False) if o["name"] == "msg" else o for o in q["objs"]]
            q["args"] = [{"int": n} if a == {"sym": "mlen"} else a for a in q["args"]]
            jobs[(s.name, role, n)] = q
    res = ctx.run(bc, jobs)
    for (name, role, n), d in sorted(res.items()):
        if d.get("aborted"):
            ctx.undec("%s %s %d" % (name, role, n), "analysis limit")
            continue
        done = 0
        for h in d["hashes"]:
            alts = [trans.parse(a["segs"]) for a in h["alts"]]
            if not any(t[0] == "IN:msg" for t in sum(alts, [])) or any(t[0][0] == "H" for t in sum(alts, [])):
                continue
            done += 1
            if h["unbounded"]:
                ctx.undec("%s %s %d" % (name, role, n), "the message is absorbed piecewise by a loop: coverage not decided")
                continue
            for toks in alts:
                pos = 0
                for t in toks:
                    if t[0] == "IN:msg":
                        pos = pos + t[2] if t[1] == pos else None
                        if pos is None:
                            break
                ctx.require(pos == n, "every message byte absorbed once in order", "%s|piece|%s" % (role, h["where"]), "%s (%s): of a message of %d bytes the digest absorbs %s (%s)" % (role, name, n, ["msg[%d+%d]" % t[1:] for t in toks if t[0] == "IN:msg"][:6], h["stack"]))
        ctx.require(done == 1 or n == 0, "one message digest", "%s|pieceone" % role, "%s (%s): a message of %d bytes is absorbed by %d digests" % (role, name, n, done))


def tiles(parts):
    """msg[0;c] msg[c;mlen-c] ... : consecutive pieces that cover [0, mlen)."""
    def lin(x):
        m = re.match(r"^(?:(\d+)\*)?(mlen)?([+-]?\d+)?$", x)
        if not m:
            return None
        return ((int(m.group(1) or 1) if m.group(2) else 0), int(m.group(3) or 0))
    pos = (0, 0)
    for p in parts:
        o, n = p.split(";")
        o, n = lin(o), lin(n)
        if o is None or n is None or o != pos:
            return False
        pos = (pos[0] + n[0], pos[1] + n[1])
    return bool(parts) and pos == (1, 0)


def api(ctx, sets, bc):
    jobs = {}
    for s in sets:
        slen = {"name": "siglen", "size": 8, "init": "zero", "cells": [{"off": 0, "range": [s.sig, 2 ** 40]}]}
        sig = {"name": "sig", "size": s.sig, "init": "uninit"}
        sk = scen.sk_obj(s)
        base = [{"ptr": "sk"}, {"ptr": "msg"}, {"sym": "mlen"}]
        jobs[(s.name, "sign", "sign")] = scen.contract(s, "sign", base + [{"ptr": "sig"}, {"ptr": "siglen"}], [MSG, sk, sig, slen], SY)
        rho = {"name": "rho", "size": s.lb, "readonly": True, "atom": "RHO"}
        jobs[(s.name, "sign_with_randomness", "sign")] = scen.contract(s, "sign_with_randomness", base + [{"ptr": "rho"}, {"int": s.lb}, {"ptr": "sig"}, {"ptr": "siglen"}], [MSG, sk, rho, sig, slen], SY)
        jobs[(s.name, "verify", "verify")] = scen.contract(s, "verify", [{"ptr": "pk"}, {"ptr": "msg"}, {"sym": "mlen"}, {"ptr": "vsig"}, {"int": s.sig}], [MSG, {"name": "pk", "size": s.pk, "readonly": True}, {"name": "vsig", "size": s.sig, "readonly": True}], SY)
    res = ctx.run(bc, jobs)
    for (name, op, ev), d in sorted(res.items()):
        n = 0
        for o in d["outcomes"]:
            for e in o["events"]:
                if e["ev"] != ev:
                    continue
                n += 1
                a = e["args"]
                good = any(x.get("obj") == "msg" and x["off"] == {"lo": 0, "hi": 0} and y.get("sym") == "mlen" and y.get("k") == 1 and y.get("c") == 0 for x, y in zip(a, a[1:]))
                rng = o.get("syms", {}).get("mlen")
                ctx.require(good or rng == [0, 0], "pointer and length handed on unchanged", "api|%s" % op, "%s (%s): the message is handed to the scheme as %s" % (op, name, [x for x in a[1:3]]))
        ctx.require(n > 0, "operation reached", "reach|%s" % op, "%s (%s): never reaches the signature scheme" % (op, name))


def narrowing(ctx):
    perm = PERM["opt64"]
    bc = ctx.bc("cse", passes="sroa,early-cse,jump-threading,early-cse", only=SPONGE + perm)
    ctxo = {"name": "ctx", "size": 4096, "init": "uninit", "dump": False}
    jobs = {}
    for lam in (128, 192, 256):
        for fam in ("H0", "H1", "H2", "H3"):
            for pre in (0, 32, [0, 400]):
                prearg = {"int": pre} if isinstance(pre, int) else {"range": pre}
                jobs[(fam, lam, str(pre))] = {"calls": [{"entry": fam + "_init", "args": [{"ptr": "ctx"}, {"int": lam}]}, {"entry": fam + "_update", "args": [{"ptr": "ctx"}, {"ptr": "pre"}, prearg]},
                                                        {"entry": fam + "_update", "args": [{"ptr": "ctx"}, {"ptr": "msg"}, {"sym": "mlen", "atom": "LEN"}]}],
                                              "realKeccak": True, "narrow": "LEN", "stubs": {"KeccakP1600_*": {"kind": "nop"}}, "syms": SY, "dumpHash": False,
                                              "objs": [ctxo, MSG, {"name": "pre", "size": 512, "readonly": True, "dump": False}]}
    res = ctx.run(bc, jobs)
    for k, d in res.items():
        for r in d["reports"]:
            if r["kind"] == "narrow":
                ctx.violation("narrow|" + r["where"], "hash update (%s): %s at %s: inputs of 4 GiB and more are not absorbed correctly (call path %s)" % (k[0], r["msg"], r["where"], r["stack"]), where=r["where"], stack=r["stack"])
        ctx.ok("length values followed into the sponge", d["stats"]["calls"])
        ctx.ok("narrowing sites", d["stats"]["narrowSites"])


FAST = "KeccakF1600_FastLoop_Absorb"


def splits(rate, thorough):
    r = rate
    a = [0, 1, 8, 32, r - 1, r, r + 1] + ([7, 9, 100, 2 * r, 2 * r - 8] if thorough else [])
    b = [0, 1, 7, 8, 9, r - 33, r - 32, r - 31, r - 1, r, r + 1, 2 * r + 3] + ([15, 16, 17, 2 * r - 33, 2 * r - 32, 2 * r, 3 * r + 8] if thorough else [])
    return [(x, y) for x in a for y in b]


def fast(parts, rate):
    """True if a full block is absorbed at a block boundary (the unrolled loop that permutes internally: label mode only)."""
    pos = 0
    for n in parts:
        left = n
        if pos % rate and left >= rate - pos % rate:
            left -= rate - pos % rate
            pos += n - left
            if left >= rate:
                return True
        elif pos % rate == 0 and left >= rate:
            return True
        pos += left if pos % rate == 0 or left < rate else 0
    return False


def sponge_job(fam, lam, parts, window, perm):
    """Updates of the given part lengths; bytes [window, window+72) carry one label each, all others BEFORE/AFTER."""
    total = sum(parts)
    objs = [{"name": "ctx", "size": 4096, "init": "uninit"}]
    calls = [{"entry": fam + "_init", "args": [{"ptr": "ctx"}, {"int": lam}]}]
    pos = 0
    for k, n in enumerate(parts):
        segs = []
        for i in range(n):
            p = pos + i
            at = "B%d" % (p - window) if window <= p < window + 72 else "BEFORE" if p < window else "AFTER"
            if segs and segs[-1]["atom"] == at:
                segs[-1]["len"] += 1
            else:
                segs.append({"off": i, "len": 1, "atom": at})
        objs.append({"name": "p%d" % k, "size": max(n, 1), "readonly": True, "segs": segs, "dump": False})
        calls.append({"entry": fam + "_update", "args": [{"ptr": "ctx"}, {"ptr": "p%d" % k}, {"int": n}]})
        pos += n
    q = {"realKeccak": True, "syms": [], "dumpHash": False, "objs": objs, "calls": calls}
    if perm == "real":
        objs.append({"name": "dst", "size": 400, "init": "uninit"})
        calls.append({"entry": fam + "_final", "args": [{"ptr": "ctx"}, {"ptr": "dst"}, {"int": 400}]})
    else:
        q["stubs"] = {"KeccakP1600_Permute*": {"kind": "call", "rets": [0]}, FAST: {"kind": "fastabsorb"}}
        q["logEv"] = True
    return q


def sponge(ctx):
    for sha3 in (("opt64", "plain32") if ctx.thorough else ("opt64",)):
        bc = ctx.bc("sponge-" + sha3, sha3=sha3, only=SPONGE + PERM[sha3])
        modelled = FAST in ir.IR(bc).body
        jobs = {}
        for lam, rate in ((128, 168), (256, 136)):
            for parts in splits(rate, ctx.thorough):
                total = sum(parts)
                edge = parts[0]
                wins = {max(0, edge - 36)} | ({0, max(0, total - 72)} if total > 72 else {0})
                if ctx.thorough:
                    wins |= set(range(0, max(1, total), 72))
                for w in sorted(wins):
                    if sha3 == "opt64" and (modelled or not fast(parts, rate)):
                        jobs[(lam, rate, parts, w, "pos")] = sponge_job("H1", lam, parts, w, "nop")
                    if ctx.thorough or w == max(0, edge - 36):
                        jobs[(lam, rate, parts, w, "real")] = sponge_job("H1", lam, parts, w, "real")
            more = [(k, 64 * rate + 5, 3) for k in (1, 2, 7, 8, 9, rate - 1)] + [(k, 8 * rate, 1) for k in (1, 5, 8, 32)] + [(2 * rate, k, rate) for k in (1, 3)]
            for parts in [(3, 0, 5, rate, 1), (32, 1, 16, 1), (1,) * 20] + more:
                if sha3 != "opt64" or (fast(parts, rate) and not modelled):
                    continue
                jobs[(lam, rate, parts, 0, "pos")] = sponge_job("H1", lam, parts, 0, "nop")
        res = ctx.run(bc, jobs)
        for (lam, rate, parts, w, mode), d in res.items():
            total = sum(parts)
            lab = ["B%d" % (p - w) if w <= p < w + 72 else "BEFORE" if p < w else "AFTER" for p in range(total)]
            key = "sponge|%s|%s" % (sha3, mode)
            desc = "SHAKE with rate %d, input split as %s" % (rate, list(parts))
            if mode == "real":
                want = set(lab)
                for o in d["outcomes"]:
                    for r in o["objs"]["dst"]["runs"]:
                        miss = want - set(r["label"]["must"])
                        ctx.require(not miss, "absorbed byte reaches the digest", key, "%s: digest bytes %d.. do not depend on input bytes %s" % (desc, r["off"], sorted(where(x, w, total) for x in miss)[:6]))
                        ctx.require("UNINIT" not in r["label"]["may"], "digest byte written", key + "|un", "%s: digest byte %d not written" % (desc, r["off"]))
                continue
            for o in d["outcomes"]:
                nperm = sum(1 for e in o["events"] if e["ev"] == "call")
                ctx.require(nperm == total // rate, "one permutation per full block", key + "|perm", "%s: %d permutations before finalisation instead of %d" % (desc, nperm, total // rate))
                lanes = {}
                for r in o["objs"]["ctx"]["runs"]:
                    for i in range(r["off"], min(200, r["off"] + r["len"])):
                        lanes.setdefault(i // 8, [set(), set()])
                        lanes[i // 8][0] |= set(r["label"]["may"])
                        lanes[i // 8][1] |= set(r["label"]["must"])
                for L in range(25):
                    want = {lab[p] for p in range(total) if (p % rate) // 8 == L} if L < rate // 8 else set()
                    may, must = lanes.get(L, (set(), set()))
                    ctx.require(want <= must, "absorbed byte reaches its lane", key + "|lane", "%s: input bytes %s do not reach the sponge state" % (desc, sorted(where(x, w, total) for x in want - must)[:6]))
                    ctx.require(may - {"UNINIT"} <= want, "absorbed byte reaches only its lane", key + "|lane2", "%s: input bytes %s are added at a wrong position of the state (lane %d)" % (desc, sorted(where(x, w, total) for x in may - want)[:6], L))


def where(a, w, total):
    return str(w + int(a[1:])) if re.match(r"^B\d+$", a) else "before %d" % w if a == "BEFORE" else "from %d" % (w + 72) if a == "AFTER" else a


def x4(ctx):
    """Each of the four instances absorbs its own input completely and nothing of the others."""
    bc = ctx.bc("sponge-opt64", only=SPONGE + PERM["opt64"])
    jobs = {}
    for lam, rate in ((128, 168), (192, 136), (256, 136)):
        lb = lam // 8
        for parts in ((lb, 16, 1), (lb + 16,), (1, lb, 15), (rate - 1, 2), (rate, 1), (rate + 1, 8), (7, rate)):
            objs = [{"name": "ctx", "size": 8192, "init": "uninit", "dump": False}]
            calls = [{"entry": "H0_x4_init", "args": [{"ptr": "ctx"}, {"int": lam}]}]
            for k, n in enumerate(parts):
                for j in range(4):
                    segs = [{"off": i, "len": 1, "atom": "S%d_%d" % (j, min(24, i) if i < n - 1 else 25)} for i in range(n)]
                    for g in segs:
                        g["atom"] = "S%d_%d_%d" % (j, k if k < 3 else 3, 0 if g["off"] == 0 else 2 if g["off"] == n - 1 else 1)
                    objs.append({"name": "p%d_%d" % (k, j), "size": n, "readonly": True, "segs": segs, "dump": False})
                calls.append({"entry": "H0_x4_update", "args": [{"ptr": "ctx"}] + [{"ptr": "p%d_%d" % (k, j)} for j in range(4)] + [{"int": n}]})
            for j in range(4):
                objs.append({"name": "sd%d" % j, "size": lb, "init": "uninit"})
                objs.append({"name": "co%d" % j, "size": 2 * lb, "init": "uninit"})
            calls.append({"entry": "H0_x4_final", "args": [{"ptr": "ctx"}] + [{"ptr": "sd%d" % j} for j in range(4)] + [{"int": lb}] + [{"ptr": "co%d" % j} for j in range(4)] + [{"int": 2 * lb}]})
            jobs[(lam, parts)] = {"realKeccak": True, "syms": [], "dumpHash": False, "objs": objs, "calls": calls}
    res = ctx.run(bc, jobs)
    for (lam, parts), d in res.items():
        for o in d["outcomes"]:
            for j in range(4):
                want = {"S%d_%d_%d" % (j, k, 0 if i == 0 else 2 if i == n - 1 else 1) for k, n in enumerate(parts) for i in range(n)}
                for nm in ("sd%d" % j, "co%d" % j):
                    for r in o["objs"][nm]["runs"]:
                        may, must = set(r["label"]["may"]), set(r["label"]["must"])
                        ctx.require(want <= must and not [x for x in may if x.startswith("S") and not x.startswith("S%d_" % j)] and "UNINIT" not in may, "four-way instance absorbs exactly its input",
                                    "x4|absorb", "four-way hash (%d bits), updates %s: output %s byte %d depends on %s, expected exactly input %d" % (lam, list(parts), nm, r["off"], sorted(may)[:8], j))


def run(ctx):
    sets = scen.sets(ctx.tree)
    bc = ctx.bc("ossl")
    transcripts(ctx, sets, bc, "ossl")
    api(ctx, sets, bc)
    narrowing(ctx)
    sponge(ctx)
    x4(ctx)
