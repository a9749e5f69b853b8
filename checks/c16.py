"""C16: the keystream generator uses a full 128-bit big-endian counter."""
import re

import suite

SPEC = {
    "level": "other",
    "technique": "value-numbering dataflow: the block-cipher input of every keystream block is compared with IV + k, over IV classes by carry length",
    "note": "IVs are classes: t trailing 0xff bytes, one constant byte where the carry stops, all earlier bytes unknown; every t, several (thorough: all 255) stopping bytes, streams of up to 513 blocks; output lengths around every block boundary.",
    "explain": "The self-contained generator is interpreted with unknown key and an IV class; each 16-byte block of the output must be the cipher output of a block whose input bytes are exactly those of IV + k. The OpenSSL build must initialise the counter-mode cipher of the security level with the whole key and IV and output its keystream from position 0. Bytes behind the requested length and the caller's IV must be untouched.",
    "rule": "block k = E(IV + k mod 2^128); key = key[0,lambda/8), rounds 10/12/14; out[0,n) written, out[n,..) untouched; iv not written; OpenSSL: EVP_aes_<lambda>_ctr",
    "assumptions": ["OpenSSL's counter mode is the 128-bit big-endian counter of SP 800-38A"],
}
ROUNDS = {128: 10, 192: 12, 256: 14}


def iv_plus(iv, k):
    """iv: 16 entries, int or symbolic name; returns iv + k (the carry must stop before a symbolic byte)."""
    out = list(iv)
    i = 15
    while k:
        if i < 0:
            return out
        if not isinstance(out[i], int):
            return None
        v = out[i] + (k & 0xff)
        out[i] = v & 0xff
        k = (k >> 8) + (v >> 8)
        i -= 1
    return out


def unknown(x):
    return not x or x[0] == "?"


def ivs(ctx):
    names = ["I:iv+%d" % i for i in range(16)]
    vals = range(255) if ctx.thorough else (0, 0x7e, 0x7f, 0xfe)
    for t in range(16):
        for v in vals:
            yield "%d trailing ff after %02x" % (t, v), names[:15 - t] + [v] + [255] * t, 48
            if v == 0xfe or ctx.thorough:
                yield "%d trailing ff after %02x" % (t, v), names[:15 - t] + [v] + [255] * t, 21
    for n in range(1, 161 if ctx.thorough else 70):
        yield "constant low bytes", names[:14] + [3, 0x21], n
    yield "all ff", [255] * 16, 48
    yield "all ff but last", [255] * 15 + [254], 80
    yield "long stream", names[:12] + [0, 255, 255, 0xfd], 8192 + 5
    yield "long stream wrap", [255] * 14 + [254, 0x80], 8192 + 9


def segs(iv):
    return [{"off": i, "len": 1, "bytes": [b]} if isinstance(b, int) else {"off": i, "len": 1, "atom": "IV"} for i, b in enumerate(iv)]


def lengths(ctx, res, cn):
    for k, d in res.items():
        lam, n = k[0], k[-1]
        for o in d["outcomes"]:
            ctx.require(not o["objs"]["iv"]["touched"], "IV unchanged", "iv|" + cn, "prg (%s, %d bit): the caller's IV is modified" % (cn, lam))
            for r in o["objs"]["out"]["runs"]:
                if r["off"] < n:
                    ctx.require("UNINIT" not in r["label"]["may"], "requested byte written", "short|" + cn, "prg (%s, %d bit, %d bytes): output byte %d is not written" % (cn, lam, n, r["off"]))
                if r["off"] + r["len"] > n:
                    ctx.require(set(r["label"]["may"]) == {"UNINIT"} and r["off"] >= n, "bytes behind untouched", "long|" + cn, "prg (%s, %d bit): writes behind the requested %d bytes" % (cn, lam, n))
        ctx.reports(d, ("write-input", "oob", "null"), "generator writes outside its output")


def portable(ctx):
    bc = ctx.bc("port", openssl=False, only=["aes.c", "fields.c", "compat.c"])
    J, X = {}, {}
    for lam in (128, 192, 256):
        for name, iv, n in ivs(ctx):
            k = (lam, name, n)
            J[k], X[k] = dict(suite.prg(lam, n, segs(iv)), stubs={"aes_encrypt": {"kind": "aesenc"}}), iv
    res = ctx.run(bc, J)
    lengths(ctx, res, "self-contained")
    # where the increment is computed on words, unknown bytes lose their identity: use constants there instead
    again = [k for k, d in res.items() if any(unknown(x) for e in d["aes"] for x in e["in"])]
    for k in again:
        X[k] = [b if isinstance(b, int) else 0x11 * (i % 14) + 1 for i, b in enumerate(X[k])]
    res.update(ctx.run(bc, {k: dict(J[k], objs=[dict(o, segs=segs(X[k])) if o["name"] == "iv" else o for o in J[k]["objs"]]) for k in again}))
    for k, d in res.items():
        lam, name, n = k
        if not d["aes"]:
            ctx.undec("aes_encrypt", "block cipher anchor aes_encrypt is not called by prg")
            continue
        for o in d["outcomes"]:
            at = {}
            for r in o["objs"]["out"]["runs"]:
                if r["off"] >= n:
                    continue
                m = re.match(r"^K(\d+)\+(\d+)$", r.get("name") or "")
                for i in range(r["len"]):
                    at[r["off"] + i] = (int(m.group(1)), int(m.group(2)) + i) if m else None
            used = {}
            for p in range(n):
                h = at.get(p)
                if not ctx.require(h is not None and h[1] == p % 16, "output byte is cipher output", "block|src", "prg (%d bit, IV with %s): output byte %d is %s, not byte %d of a cipher block" % (lam, name, p, h, p % 16)):
                    break
                used.setdefault(p // 16, h[0])
                ctx.require(used[p // 16] == h[0], "one cipher call per block", "block|mix", "prg (%d bit): block %d mixes cipher outputs" % (lam, p // 16))
            for b, rec in used.items():
                want = iv_plus(X[k], b)
                if want is None:
                    continue
                e = d["aes"][rec]
                if any(unknown(x) for x in e["in"]):
                    ctx.undec("counter block", "prg (%d bit, IV with %s): block %d: input not resolved: %s" % (lam, name, b, e["in"]))
                    continue
                got = [int(x[1:]) if x.startswith("c") else x for x in e["in"]]
                ctx.require(got == want, "counter block is IV + k", "counter", "prg (%d bit, IV with %s): block %d encrypts %s instead of IV + %d = %s" % (lam, name, b, got, b, want))
                ctx.require(e["rounds"] == ROUNDS[lam] and e["words"] == 4, "cipher of the security level", "cipher", "prg (%d bit): uses a cipher with %d rounds and %d words" % (lam, e["rounds"], e["words"]))
            ctx.require(len(set(used.values())) == len(used), "no block reused", "reuse", "prg (%d bit): a keystream block is output twice" % lam)
    # every key byte reaches every output byte
    K = {}
    for lam in (128, 192, 256):
        q = suite.prg(lam, 35)
        q["objs"][0] = {"name": "key", "size": lam // 8, "readonly": True, "segs": [{"off": i, "len": 1, "atom": "KB%d" % i} for i in range(lam // 8)]}
        K[(lam, 35)] = q
    for (lam, n), d in ctx.run(bc, K).items():
        want = {"KB%d" % i for i in range(lam // 8)}
        for o in d["outcomes"]:
            for r in o["objs"]["out"]["runs"]:
                if r["off"] < n:
                    miss = want - set(r["label"]["must"])
                    ctx.require(not miss, "every key byte used", "key", "prg (%d bit): output byte %d does not depend on key bytes %s" % (lam, r["off"], sorted(miss)[:6]))
    L = {(lam, n): suite.prg(lam, n) for lam in (128, 192, 256) for n in list(range(0, 300 if ctx.thorough else 70)) + [255, 256, 257, 3510, 4096, 4112, 4113]}
    lengths(ctx, ctx.run(bc, L), "self-contained")


def openssl(ctx):
    bc = ctx.bc("ossl", only=["aes.c", "fields.c", "compat.c"])
    L = {(lam, n): suite.prg(lam, n) for lam in (128, 192, 256) for n in list(range(0, 300 if ctx.thorough else 70)) + [255, 256, 257, 3510, 4096, 4112, 4113, 65552]}
    res = ctx.run(bc, L)
    lengths(ctx, res, "OpenSSL")
    for (lam, n), d in res.items():
        if n == 0:
            continue
        c = d["ciphers"]
        if not ctx.require(len(c) >= 1, "cipher initialised", "ossl|none", "prg (OpenSSL, %d bit): no cipher initialised" % lam):
            continue
        for e in c:
            ctx.require(e["mode"] == "EVP_aes_%d_ctr" % lam, "counter mode of the level", "ossl|mode|%d" % lam, "prg (OpenSSL, %d bit) uses %s" % (lam, e["mode"]))
            ctx.require(e["key"] == "I:key+0:%d" % (lam // 8) and e["iv"] == "I:iv+0:16", "whole key and IV", "ossl|key", "prg (OpenSSL, %d bit) is keyed with %s, IV %s" % (lam, e["key"], e["iv"]))
        for o in d["outcomes"]:
            p = 0
            for r in o["objs"]["out"]["runs"]:
                if r["off"] < n:
                    ctx.require(r.get("name") == "K0+%d" % r["off"], "keystream from position 0 without gap", "ossl|stream", "prg (OpenSSL, %d bit, %d bytes): output byte %d is %s" % (lam, n, r["off"], r.get("name")))
                    p = r["off"] + r["len"]
            ctx.require(p >= n, "keystream complete", "ossl|end", "prg (OpenSSL): %d of %d bytes" % (p, n))


def run(ctx):
    portable(ctx)
    openssl(ctx)
