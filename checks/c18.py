"""C18: per-signature secrets are bound to key, message and randomness."""
import re

import scen
import suite
import trans

SPEC = {
    "level": "other",
    "technique": "symbolic-transcript extraction: content of the hash records that supply the root secret and the IV, and backward provenance of every generator key",
    "note": "All keys, messages and randomness strings at once: fixed-length, arbitrary-length (0..2^40) and absent randomness are separate abstract runs of each of the twelve sets.",
    "explain": "Signing is interpreted with abstract key, message and randomness. The record supplying the IV field is located by byte provenance; what it absorbs on every path is compared with the required inputs, and every key and IV given to the generator must come from that record.",
    "rule": "one record, suffix used by no other record, absorbs all key bytes, all 2*lambda bits of the digest that absorbs public key and message, all of rho when present; root key = its first lambda bits, IV = the next 128; every generator key depends on the root key, every generator IV is the IV",
    "assumptions": [],
}


def ranges(toks, src):
    out = set()
    for t in toks:
        if t[0] == src and t[2] is not None:
            out.update(range(t[1], t[1] + t[2]))
    return out


def one(ctx, s, rho, d, cn):
    A = trans.Side(d, s, "sign")
    f = "%s (%s, rho %s)" % (s.fn("sign_with_randomness"), cn, rho)
    if A.outcome is None:
        ctx.undec("nosign|" + s.name, f + ": no successful outcome")
        return
    rn, off = A.at_sig(s.sig - 16, 16)
    if not ctx.require(rn is not None, "IV taken from one hash record", "iv|src", "%s: the IV is not taken from one hash output" % f):
        return
    R = A.recs[rn]
    ctx.require(not R["unbounded"], "root transcript bounded", "unb", "%s: what is hashed into root secret and IV is not bounded (%s)" % (f, R["stack"]))
    sfx = A.suffix(R)
    ctx.require(sfx is not None and all(A.suffix(h) != sfx for n, h in A.recs.items() if h is not R), "domain separated", "sep", "%s: the record supplying root secret and IV shares its separator %s with another hash (%s)" % (f, sfx, R["stack"]))
    mus = set()
    for toks, symc in A.flat(rn):
        key = ranges(toks, "IN:sk") if s.half else set()
        ctx.require(key >= set(range(s.half, s.sk)), "whole key absorbed", "key", "%s: the record supplying root secret and IV absorbs %d of %d key bytes on a path (%s)" % (f, len(key & set(range(s.half, s.sk))), s.key, R["stack"]))
        hs = [t for t in toks if re.match(r"^H\d+$", t[0])]
        for t in hs:
            mus.add(int(t[0][1:]))
        ctx.require(any(t[1] == 0 and t[2] == 2 * s.lb for t in hs), "whole message digest absorbed", "mu", "%s: the record supplying root secret and IV does not absorb a %d-byte message digest on a path (%s)" % (f, 2 * s.lb, R["stack"]))
        if rho == "full":
            got = ranges(toks, "IN:rho")
            ctx.require(got == set(range(s.lb)), "all randomness absorbed", "rho", "%s: %d of %d randomness bytes reach root secret and IV on a path (%s)" % (f, len(got), s.lb, R["stack"]))
        elif rho == "sym":
            whole = any(t[0] == "SYM:rho" and t[1] == "0;rlen" for t in toks)
            empty = any(c == [0, 0] for c in symc[2:3])
            ctx.require(whole or empty, "all randomness absorbed", "rho", "%s: randomness of length %s reaches root secret and IV as %s (%s)" % (f, symc[2:3], [trans.show(t) for t in toks if "rho" in t[0]], R["stack"]))
    ctx.require(len(mus) == 1, "one message digest", "mu1", "%s: root secret and IV depend on digests %s" % (f, sorted(mus)))
    for m in mus:
        if A.recs[m]["unbounded"]:
            ctx.undec("mu|" + s.name, f + ": data of symbolic length absorbed by a loop (C04 decides that it is whole)")
            continue
        for toks, symc in A.flat(m):
            pk = ranges(toks, "PK")
            ctx.require(len(pk) == s.pk, "digest covers the public key", "mupk", "%s: the message digest covers %d of %d public-key bytes" % (f, len(pk), s.pk))
            ctx.require(any(t[0] == "SYM:msg" and t[1] == "0;mlen" for t in toks) or [0, 0] in symc[1:2], "digest covers the message", "mumsg", "%s: the message digest does not cover the whole message" % f)
    # what uses them
    atom = next((q[2] for q in R["sq"] if q[0] == 0), None)
    roots = 0
    for p in d.get("prgs", []):
        ctx.require(atom is None or atom in p["keyLabel"]["must"], "generator key derived from the root secret", "prgkey", "%s: a generator key does not depend on the root secret (%s, key %s)" % (f, p["where"], p["key"]))
        ctx.require(p["iv"] == "H%d+%d:16" % (rn, off), "generator IV is the IV of the signature", "prgiv", "%s: generator IV is %s at %s" % (f, p["iv"], p["where"]))
        m = re.match(r"^H%d\+(\d+):(\d+)$" % rn, p["key"])
        if m:
            roots += 1
            a, n = int(m.group(1)), int(m.group(2))
            ctx.require(n == s.lb and (a + n <= off or a >= off + 16), "root secret separate from the IV", "overlap", "%s: root secret = bytes [%d, %d), IV = bytes [%d, %d) of the same hash output" % (f, a, a + n, off, off + 16))
    ctx.require(roots > 0, "trees grown from the root secret", "root", "%s: no generator call is keyed with the root secret" % f)


def api(ctx, s, name, d):
    f = "%s (%s)" % (s.fn("sign_with_randomness" if name.startswith("sign_wr") else "sign"), name)
    for o in d["outcomes"]:
        for e in [e for e in o["events"] if e["ev"] == "sign"]:
            a = e["args"]
            ctx.require(a[1].get("obj") == "msg" and a[2].get("sym") == "mlen" and a[2].get("c", 0) == 0 and a[2].get("k") == 1, "message passed on", "api|msg", "%s: signs message %s of length %s" % (f, a[1], a[2]))
            ctx.require(e["bytes"][0] == "I:sk+%d:%d" % (s.half, s.key), "key passed on", "api|key", "%s: signs with key %s" % (f, e["bytes"][0]))
            if name == "sign_wr":
                ctx.require(e["rho"] == "I:rho+0:%d" % s.lb, "randomness passed on", "api|rho", "%s: passes randomness %s" % (f, e["rho"]))
            elif name == "sign_wr:rho any length":
                ctx.require(a[6].get("obj") == "rho" and a[6]["off"] == {"hi": 0, "lo": 0} and a[7].get("sym") == "rlen" and a[7].get("c", 0) == 0 and a[7].get("k") == 1 or o["syms"].get("rlen") == [0, 0], "randomness passed on", "api|rho", "%s: passes randomness %s of length %s" % (f, a[6], a[7]))
            else:
                n = sum(int(x.rsplit(":", 1)[1]) for x in e["rho"].split(",") if re.match(r"^R\d+\+\d+:\d+$", x))
                ctx.require(n >= s.lb and not e["rhoUninit"], "own randomness passed on", "api|rng", "%s: passes randomness %s, drew %d bytes" % (f, e["rho"], s.lb))


def run(ctx):
    sets = scen.sets(ctx.tree)
    M = {s.name: s for s in sets}
    J, B = {}, {}
    cfgs = [("OpenSSL", ctx.bc("ossl"))] + ([("self-contained", ctx.bc("port", openssl=False, ndebug=True))] if ctx.thorough else [])
    for cn, bc in cfgs:
        for s in sets:
            for rho in ("full", "sym", "none"):
                if rho == "none" and not ctx.thorough and not s.name.endswith("f"):
                    continue
                J[("heavy", cn, s.name, rho)] = scen.heavy_sign(s, rho=rho, owf="true")
                B[("heavy", cn, s.name, rho)] = bc
            A = suite.api(s)
            for n in ("sign", "sign_wr", "sign_wr:rho any length"):
                J[("api", cn, s.name, n)] = A[n][0]
                B[("api", cn, s.name, n)] = bc
    for k, d in ctx.run(B, J).items():
        if k[0] == "heavy":
            one(ctx, M[k[2]], k[3], d, k[1])
        else:
            api(ctx, M[k[2]], k[3], d)
