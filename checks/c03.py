"""C03: signer and verifier bind the same complete, domain-separated transcript."""
import re

import scen
import trans

SPEC = {
    "level": "other",
    "technique": "symbolic-transcript extraction by abstract interpretation, then a two-program structural comparison (byte provenance of every absorbed byte)",
    "note": "Decides order, length, provenance and domain separation of everything absorbed into each hash for all inputs; where a value is recomputed by the verifier its numeric equality is not decided (C40), only its place and length.",
    "explain": "signing and verification of each parameter set are interpreted; every hash context yields the list of absorbed byte ranges with provenance. The record compared against / written to the challenge field of the signature is the root; the two trees of absorbed records are compared top-down after renaming (public key, message, signature offsets).",
    "rule": "same record shape (absorbed ranges, order, lengths, rate, padding suffix, squeeze split) on both sides, single path-independent transcript per record, every signature byte absorbed or compared, every leaf commitment absorbed once in order, role constants pairwise distinct",
    "assumptions": ["field layout of the signature as in the FAEST v1 specification (lib/scen.py fields())"],
}


def shape(h):
    return (h["rate"], h["suffix"], tuple((q[0], q[1]) for q in h["sq"]))


def compare(ctx, s, A, B, na, nb, role, seen, cover):
    """Compares sign record na with verify record nb recursively."""
    if (na, nb) in seen:
        return
    seen[(na, nb)] = role
    ha, hb = A.recs.get(na), B.recs.get(nb)
    key = "%s|%s|" % (s.name, role)
    if not ha or not hb:
        ctx.violation(key + "missing", "%s: hash record of %s missing on one side" % (s.name, role))
        return
    if all(h["unbounded"] and any(t[0].startswith("SYM:") or t[0] == "IN:msg" for a in h["alts"] for t in trans.parse(a["segs"])) for h in (ha, hb)):
        ctx.undec(key + "piecewise", "data of symbolic length absorbed by a loop: its place in the transcript is not compared (C04 decides that it is whole)")
        pk = [{i for t in toks if t[0] == "PK" for i in range(t[1], t[1] + t[2])} for S, n in ((A, na), (B, nb)) for toks, _ in S.flat(n)]
        cover.extend((-s.pk + i, 1, role) for i in set.intersection(*pk))
        cover.append(("MSG", "?", role))
        return
    ctx.require(not ha["unbounded"] and not hb["unbounded"], "transcript bounded", key + "unbounded", "%s: what is absorbed for %s is not the same on every path (%s / %s)" % (s.name, role, ha["stack"], hb["stack"]))
    ctx.require(shape(ha) == shape(hb), "same hash and squeeze", key + "shape", "%s: %s uses different hash parameters in sign %s and verify %s" % (s.name, role, shape(ha), shape(hb)))
    fa, fb = norm(A.flat(na)), norm(B.flat(nb))
    ctx.require(len(fa) == 1, "path-independent transcript (sign)", key + "altsA", "%s: signer absorbs different data for %s depending on the path: %s" % (s.name, role, brief(fa)))
    ctx.require(len(fb) == 1, "path-independent transcript (verify)", key + "altsB", "%s: verifier absorbs different data for %s depending on the path: %s" % (s.name, role, brief(fb)))
    if len(fa) != 1 or len(fb) != 1:
        return
    ta, tb = fa[0], fb[0]
    subs = []
    good = len(ta) == len(tb)
    for x, y in zip(ta, tb):
        hx, hy = re.match(r"^H(\d+)$", x[0]), re.match(r"^H(\d+)$", y[0])
        if hx and hy:
            good = good and x[1:] == y[1:]
            subs.append((int(hx.group(1)), int(hy.group(1)), x))
        elif "?" in (x[0], y[0]) and x[0][0] in "?H" and y[0][0] in "?H" and role.startswith(("tree", "?")):
            good = good and x[2] == y[2]
        else:
            good = good and x == y
    ctx.require(good, "same absorbed ranges in the same order", key + "diff", "%s: transcript of %s differs: signer absorbs [%s], verifier absorbs [%s] (%s)" % (s.name, role, ", ".join(map(trans.show, ta))[:400], ", ".join(map(trans.show, tb))[:400], ha["stack"]))
    ctx.ok("absorbed range", len(ta))
    # an intermediate digest is bound only if all of it is absorbed
    for side, toks in ((A, ta), (B, tb)):
        part = {}
        for t in toks:
            m = re.match(r"^H(\d+)$", t[0])
            if m and t[2] is not None:
                part.setdefault(int(m.group(1)), set()).update(range(t[1], t[1] + t[2]))
        for n, got in sorted(part.items()):
            h = side.recs.get(n)
            need = {i for q in h["sq"] for i in range(q[0], q[0] + q[1])} if h else set()
            ctx.require(need <= got, "intermediate digest absorbed completely", key + "part", "%s (%s): %s absorbs only %d of the %d bytes of the digest computed at %s" % (s.name, side.role, role, len(got & need), len(need), h and h["stack"]))
    for t in tb:
        if t[0] == "SIG":
            cover.append((t[1], t[2], role))
        elif t[0] == "PK":
            cover.append((-s.pk + t[1], t[2], role))
        elif t[0].startswith("SYM:msg"):
            cover.append(("MSG", t[1], role))
    for k, (m, n, t) in enumerate(subs):
        compare(ctx, s, A, B, m, n, role + "/" + str(k), seen, cover)


def norm(alts):
    """Drops alternatives that differ only where a symbolic length is zero."""
    uniq = []
    for toks, symc in alts:
        if toks not in uniq:
            uniq.append(toks)
    if len(uniq) > 1:
        full = max(uniq, key=len)
        rest = []
        for toks, symc in alts:
            if toks == full:
                continue
            # symbols that are zero on this alternative
            zero = any(c == [0, 0] for c in symc[1:])
            if zero and [t for t in full if not t[0].startswith("SYM:")] == toks:
                continue
            rest.append(toks)
        uniq = [full] + rest
    return uniq


def brief(alts):
    return " | ".join("[" + ", ".join(map(trans.show, t))[:160] + "]" for t in alts[:3])


def run(ctx):
    bc = ctx.bc("ossl")
    sets = scen.sets(ctx.tree)
    jobs, bcs = {}, {}
    cfgs = [("ossl", bc)]
    if ctx.thorough:
        cfgs.append(("port", ctx.bc("port", openssl=False, ndebug=True, sha3="plain32")))
    for cn, b in cfgs:
        for s in sets:
            jobs[(cn, s.name, "s")] = scen.heavy_sign(s, owf="true")
            jobs[(cn, s.name, "v")] = scen.heavy_verify(s, segs=[{"off": o, "len": n, "atom": a} for a, o, n in s.fields()])
            bcs[(cn, s.name, "s")] = bcs[(cn, s.name, "v")] = b
    res = ctx.run(bcs, jobs)
    for cn, _ in cfgs:
        for s in sets:
            if (cn, s.name, "s") in res and (cn, s.name, "v") in res:
                one(ctx, s, res[(cn, s.name, "s")], res[(cn, s.name, "v")])


def one(ctx, s, ds, dv):
    A, B = trans.Side(ds, s, "sign"), trans.Side(dv, s, "verify")
    if A.outcome is None:
        ctx.violation(s.name + "|nosign", "%s: signing has no successful outcome" % s.name)
        return
    base = s.sig - 16 - s.lb
    na, off = A.at_sig(base, s.lb)
    ctx.require(na is not None and off == 0, "challenge field written from a digest", s.name + "|chall3", "%s: the challenge field of the signature is not one complete digest" % s.name)
    ivn, ivo = A.at_sig(s.sig - 16, 16)
    ctx.require(ivn is not None, "IV field written from a digest", s.name + "|iv", "%s: the IV field of the signature is not taken from a digest" % s.name)
    nb = None
    for o in dv["outcomes"]:
        for f in o["facts"]:
            m = re.match(r"1:I:sig\+%d#\d+:H(\d+)\+0#" % base, f)
            if m:
                nb = int(m.group(1))
    ctx.require(nb is not None, "challenge compared in verification", s.name + "|vroot", "%s: verification does not compare the challenge field with a digest" % s.name)
    if na is None or nb is None:
        return
    seen, cover = {}, []
    compare(ctx, s, A, B, na, nb, "challenge", seen, cover)
    # coverage of the verifier's transcript
    have = set()
    for c in cover:
        if c[0] != "MSG":
            have.update(range(c[0], c[0] + c[1]))
    ctx.require(any(c[0] == "MSG" for c in cover), "message absorbed", s.name + "|msg", "%s: the message is not part of the challenge transcript" % s.name)
    ctx.require(all(i in have for i in range(-s.pk, 0)), "public key absorbed", s.name + "|pk", "%s: not every byte of the public key is part of the challenge transcript" % s.name)
    trees = []
    for name, o, n in s.fields():
        if name.startswith(("PDEC", "COM", "CHALL3")):
            continue
        ctx.require(all(i in have for i in range(o, o + n)), "signature field absorbed", s.name + "|field|" + name, "%s: bytes of signature field %s are not part of the challenge transcript" % (s.name, name))
    # the consistency check: one universal hash per column of the VOLE matrix, each as long as the signature's own
    ulen = dict((x, n) for x, o, n in s.fields())["U"]
    uoff = dict((x, o) for x, o, n in s.fields())["U"]
    for side, top, k in ((A, na, 0), (B, nb, 1)):
        for pair in list(seen):
            f = norm(side.flat(pair[k]))
            if not f or not any(t[0] == "SIG" and t[1] <= uoff < t[1] + t[2] for t in f[0]):
                continue
            for t in f[0]:
                m = re.match(r"^H(\d+)$", t[0])
                if m and not is_chall(side, int(m.group(1)), top) and int(m.group(1)) in side.recs:
                    g = norm(side.flat(int(m.group(1))))
                    if len(g) == 1 and all(x[2] is not None for x in g[0]):
                        n = sum(x[2] for x in g[0] if x[0] != "const")
                        ctx.require(n >= s.lam * ulen, "every column's universal hash absorbed", "%s|columns|%s" % (s.name, side.role), "%s (%s): the consistency digest absorbs %d bytes, %d columns of %d bytes are %d (%s)" % (s.name, side.role, n, s.lam, ulen, s.lam * ulen, side.recs[int(m.group(1))]["stack"]))
        f = norm(side.flat(top))
        if len(f) == 1 and all(x[2] is not None for x in f[0]):
            n = sum(x[2] for x in f[0] if x[0] not in ("const", "SIG") and x[0][0] != "H")
            ctx.require(n >= s.lb, "second proof message absorbed", "%s|btilde|%s" % (s.name, side.role), "%s (%s): the final challenge absorbs %d bytes besides challenge and signature fields, the second proof message has %d" % (s.name, side.role, n, s.lb))
    # the commitment digests: find the record that absorbs exactly tau records
    hcomA = hcomB = None
    for (x, y), role in seen.items():
        fa = norm(A.flat(x))
        if fa and len(fa[0]) == s.tau + 1 and all(t[0][0] == "H" for t in fa[0][:-1]):
            hcomA, hcomB = x, y
    ctx.require(hcomA is not None, "commitment digest found", s.name + "|hcom", "%s: no absorbed record covers the %d instance commitments" % (s.name, s.tau))
    if hcomA is not None:
        ta, tb = norm(A.flat(hcomA))[0], norm(B.flat(hcomB))[0]
        iv = ("SIG", s.sig - 16, 16)
        usedleaf = set()
        for i in range(s.tau):
            ra, rb = A.recs[int(ta[i][0][1:])], B.recs.get(int(tb[i][0][1:])) if tb[i][0][0] == "H" else None
            nleaf = 1 << s.depth(i)
            # signer: every leaf commitment, once, in order
            toks = trans.parse(ra["alts"][0]["segs"])
            leaves = [t for t in toks if t[0][0] == "H"]
            full = len(leaves) == nleaf and len(toks) == nleaf + 1 and all(t[1] == s.lb and t[2] == 2 * s.lb for t in leaves)
            ids = [int(t[0][1:]) for t in leaves]
            ctx.require(full and ids == sorted(ids) and len(set(ids)) == nleaf and not (set(ids) & usedleaf), "every leaf committed once in order", "%s|leaves" % s.name, "%s: instance %d: the commitment digest does not absorb each of the %d leaf commitments exactly once in order" % (s.name, i, nleaf))
            usedleaf |= set(ids)
            keys = []
            for n in ids:
                h = A.recs[n]
                lf = trans.parse(h["alts"][0]["segs"])
                good = len(h["alts"]) == 1 and len(lf) == 3 and lf[0][2] == s.lb and A.canon(lf[1]) == [iv] and lf[2][0] == "const" and [q[:2] for q in h["sq"]] == [[0, s.lb], [s.lb, 2 * s.lb]]
                ctx.require(good, "leaf transcript", "%s|leaf" % s.name, "%s: leaf commitment does not hash (seed, IV, separator) into (seed, commitment): %s squeeze %s at %s" % (s.name, [trans.show(t) for t in lf], h["sq"], h["where"]))
            if rb:
                may = set(rb["label"]["may"])
                ctx.require("PDEC%d" % i in may and "COM%d" % i in may, "opening absorbed", "%s|open" % s.name, "%s: the verifier's commitment digest %d does not depend on the opening and commitment of instance %d in the signature" % (s.name, i, i))
    # leaf shape identical wherever computed (four-way or single, signer or verifier)
    shapes = {}
    for side in (A, B):
        for h in side.d["hashes"]:
            if side.suffix(h) == "00" and len(h["alts"]) == 1:
                lens = tuple((t[2] if t[0] != "const" else t[1]) for t in trans.parse(h["alts"][0]["segs"]))
                shapes.setdefault((shape(h), lens), h["stack"])
                ctx.ok("leaf shape")
    ctx.require(len(shapes) == 1, "leaf hashed identically by every variant", s.name + "|leafshape", "%s: leaf commitments are hashed differently at different places: %s" % (s.name, "; ".join("%s at %s" % (k, v) for k, v in list(shapes.items())[:3])))
    # domain separation
    for side, top in ((A, na), (B, nb)):
        roles = {}
        role_of = {}
        for (x, y), r in seen.items():
            role_of[x if side is A else y] = r
        for h in side.d["hashes"]:
            sx = side.suffix(h)
            n = h["n"]
            ctx.require(sx is not None and len(sx) == 2, "domain separator is one trailing constant byte", "%s|sep|%s" % (s.name, h["where"]), "%s: a hash computed at %s does not end in a constant domain separator byte" % (s.name, h["stack"]))
            kind = "leaf" if [q[:2] for q in h["sq"]] == [[0, s.lb], [s.lb, 2 * s.lb]] else None
            if n in role_of:
                kind = "challenge" if is_chall(side, n, top) else ("root" if n == ivn and side is A else "collision-resistant")
            elif side is A and n == ivn:
                kind = "root"
            if kind:
                roles.setdefault(kind, set()).add((sx, h["suffix"]))
        allsep = [x for v in roles.values() for x in v]
        ctx.require(all(len(v) == 1 for v in roles.values()) and len(allsep) == len(set(allsep)), "role constants distinct", "%s|roles|%s" % (s.name, side.role), "%s (%s): random-oracle roles share or mix domain separators: %s" % (s.name, side.role, roles))
    if len(ctx.samples) < 2:
        ctx.samples.append({"set": s.name, "roles": {str(k): sorted(map(str, v)) for k, v in roles.items()}, "compared": len(seen)})


def is_chall(side, n, top):
    """n is top or reached from it through first positions (the challenge chain)."""
    cur = top
    while True:
        if cur == n:
            return True
        f = norm(side.flat(cur))
        t = f[0][0] if f and f[0] else None
        m = t and re.match(r"^H(\d+)$", t[0])
        if not m:
            return False
        nxt = int(m.group(1))
        g = norm(side.flat(nxt))
        if any(x[0].startswith("SYM:") for x in g[0]):
            return False
        cur = nxt
