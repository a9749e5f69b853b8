"""C20: openings reconstruct the committed VOLE correlation and hide the challenged leaf, for every challenge position."""
import os

import fw
import scen

SPEC = {
    "level": "other",
    "technique": "abstract interpretation over the free (Herbrand) term algebra of PRG, hash and XOR: the correlation's defect is a term that must normalise to zero",
    "note": "All secrets, seeds and IVs at once (they stay uninterpreted). Openings: classes of leaf positions spread over the trees (thorough: every one in every tree). faest.c with the commitment replaced: every position in every tree for the fast sets, every position in some tree and special ones in every tree for the small sets. Quick uses short VOLE columns plus one set at its real column length.",
    "explain": "A small driver in harness/vole.c is compiled with the library and interpreted, never run: it commits once and then, for a list of concrete challenges, opens every tree, reconstructs, and forms q + v + challenge bit * u per column and the difference of the two commitments. PRG, hash and XOR results are terms over the unknown root key; equal inputs give equal terms. A byte whose term is not zero is a violation when the term is exact. The opened nodes are also closed under the known functions: neither the challenged leaf's seed and commitment preimage nor any sibling output of the call that made them may become derivable. A second driver (harness/sign.c) analyses faest_sign followed by faest_verify for concrete third challenges, with the proof layer and the universal hash replaced by transparent stand-ins: the columns the verifier corrects, what it hashes, its recomputed challenge and its verdict must be the signer's.",
    "rule": "forall challenge position: q_j = v_j + d_j*u, hcom' = hcom; parent of the unopened leaf's seed not derivable from (opening, unopened commitment, IV); verify(sign(m)) arrives at q_j = v_j + d_j*u, the same hashed columns and challenge, and accepts",
    "assumptions": ["PRG and hash calls are the ones anchored by their library API (EVP counter mode, Keccak sponge); distinct terms are distinct values (an inequality of terms is a mismatch for all but a negligible fraction of keys)"],
}
IDS = {n: i + 1 for i, n in enumerate(["128s", "128f", "192s", "192f", "256s", "256f"])}
HARNESS = os.path.join(fw.VERIF, "harness", "vole.c")
HARNESS2 = os.path.join(fw.VERIF, "harness", "sign.c")


def positions(depth, every):
    n = 1 << depth
    if every or n <= 64:
        return list(range(n))
    base = {0, 1, 2, 3, 5, n - 1, n - 2, n - 4, n // 2 - 1, n // 2, n // 2 + 1}
    for k in range(depth):
        base |= {(1 << k), (1 << k) - 1, n - 1 - (1 << k)}
    base |= {int(n * f) for f in (0.1, 0.3, 0.62, 0.83)}
    return sorted(p for p in base if 0 <= p < n)


def challenges(s, every, parts):
    """Concrete challenges which, together, put every wanted position into some tree (small sets) or into every tree (fast sets); neighbouring trees see
    unrelated positions."""
    P = {d: positions(d, every) for d in (s.k0, s.k1) if d}
    big = max(len(P[s.depth(i)]) for i in range(s.tau))
    each = s.k0 <= 8
    n = big if each else max(8, -(-big // min(s.t0 or s.tau, s.t1 or s.tau)))
    out = []
    for m in range(n):
        bits = 0
        sh = 0
        pos = []
        for i in range(s.tau):
            d = s.depth(i)
            g = P[d]
            k = i if i < s.t0 else i - s.t0
            p = g[(m + 3 * i if each else (m * (s.t0 if i < s.t0 else s.t1) + k)) % len(g)]
            bits |= p << sh
            sh += d
            pos.append(p)
        out.append((bits.to_bytes(s.lb, "little"), pos))
    return [out[i::parts] for i in range(parts)]


def scenario(s, pid, ellhat, chal):
    lb, n, cnt = s.lb, (ellhat + 7) // 8, len(chal)
    per_o = sum(s.depth(i) for i in range(s.tau)) * lb
    per_u = s.tau * 2 * lb
    raw = b"".join(c for c, _ in chal)
    out = lambda nm, size: {"name": nm, "size": size, "init": "uninit"}
    derive = []
    for m in range(cnt):
        known = [{"obj": "iv", "off": 0, "len": 16}, {"obj": "opened", "off": m * per_o, "len": per_o}, {"obj": "unopened", "off": m * per_u, "len": per_u}]
        derive.append({"known": known, "owners": [{"obj": "unopened", "off": m * per_u, "len": per_u}]})
    P = lambda nm: {"ptr": nm}
    return {"entry": "vp_vole", "terms": True, "syms": [], "secret": ["ROOT"], "dumpHash": False, "derive": derive,
            "objs": [{"name": "root", "size": lb, "readonly": True, "atom": "ROOT"}, {"name": "iv", "size": 16, "readonly": True, "atom": "IV"},
                     {"name": "chal", "size": len(raw), "readonly": True, "segs": [{"off": 0, "len": len(raw), "bytes": list(raw)}]},
                     out("hdiff", 2 * lb * cnt), out("qdiff", s.lam * n * cnt), out("opened", per_o * cnt), out("unopened", per_u * cnt)],
            "args": [{"int": v} for v in (pid, ellhat, s.lam, s.k0, s.t0, s.k1, s.t1, cnt)] + [P(x) for x in ("root", "iv", "chal", "hdiff", "qdiff", "opened", "unopened")]}


def whole(s, pid, l, chal, standin=False):
    """faest_sign then faest_verify with the third challenge fixed (harness/sign.c); standin: the vector commitment is replaced, only faest.c is analysed."""
    lb, cnt = s.lb, len(chal)
    n, half, msglen = l // 8 + 2 * lb + 2, s.pk // 2, 24
    stream = 2 * half + msglen + s.lam * (lb + 2)
    raw = b"".join(c for c, _ in chal)
    out = lambda nm, size: {"name": nm, "size": size, "init": "uninit"}
    atom = lambda nm, size: {"name": nm, "size": size, "readonly": True, "atom": nm.upper()}
    P = lambda nm: {"ptr": nm}
    return {"entry": "vp_sign_verify", "terms": True, "syms": [], "secret": [], "dumpHash": False,
            "objs": [atom("key", lb), atom("pk", 2 * half), atom("msg", msglen), atom("rho", lb), atom("w", l // 8), atom("ab", 2 * lb),
                     atom("vole", 2 * lb + (s.lam + s.tau) * n),
                     {"name": "chal", "size": len(raw), "readonly": True, "segs": [{"off": 0, "len": len(raw), "bytes": list(raw)}]},
                     out("qdiff", s.lam * n * cnt), out("hdiff", stream * cnt), out("cdiff", lb * cnt), out("verdict", 4 * cnt)],
            "args": [{"int": v} for v in (pid, l, s.lam, s.k0, s.t0, s.k1, s.t1, cnt)] + [P("key"), P("pk"), P("msg"), {"int": msglen}]
                    + [P("rho"), P("w"), P("ab"), P("vole") if standin else {"null": True}] + [P(x) for x in ("chal", "qdiff", "hdiff", "cdiff", "verdict")]}


def pack(s, pos):
    bits = sh = 0
    for i, p in enumerate(pos):
        bits |= p << sh
        sh += s.depth(i)
    return bits.to_bytes(s.lb, "little"), list(pos)


def whole_challenges(s, thorough):
    """Challenges for the complete sign/verify pass: extreme leaves everywhere, extreme leaves in single trees, mixtures."""
    top = [(1 << s.depth(i)) - 1 for i in range(s.tau)]
    mix = lambda a: pack(s, [(a * (i + 3) * 0x9E3779B1 >> 7) & t for i, t in enumerate(top)])
    edges = lambda k: pack(s, [(0, t, 1, t - 1, t // 2, 255 & t, t // 2 + 1, 256 & t, 2, t - 2, t - 255 & t)[(i + k) % 11] for i, t in enumerate(top)])
    edge = edges(0)
    zero, ones = pack(s, [0] * s.tau), pack(s, top)
    first, last = pack(s, [0] + top[1:]), pack(s, [0x35 & t for t in top[:-1]] + top[-1:])
    alt = [pack(s, [t if (i + k) % 2 else 0 for i, t in enumerate(top)]) for k in (0, 1)]
    if thorough:
        return [edges(k) for k in range(11)] + [zero, ones, first, last] + alt + [mix(a) for a in range(1, 12)]
    if not s.name.endswith("f"):
        return [edge] + ([edges(1), edges(10)] if s.lam == 128 else [edges(1)] if s.lam == 192 else [])
    return [edge, zero, ones, first, last, mix(1)] + (alt + [mix(2), mix(3)] if s.lam == 128 else [])


def standin_challenges(s, every):
    """For faest.c alone: fast sets every leaf position in every tree; small sets every position in some tree and the special ones in every tree (thorough: every
    position in every tree)."""
    n = [1 << s.depth(i) for i in range(s.tau)]
    if every or s.name.endswith("f"):
        return [pack(s, [(m + 3 * i) % n[i] for i in range(s.tau)]) for m in range(max(n))]
    E = {d: positions(d, False) for d in (s.k0, s.k1) if d}
    E = {d: sorted(set(e) | {255, 256, (1 << d) - 256, (1 << d) - 255}) for d, e in E.items()}
    out = [pack(s, [E[s.depth(i)][(m + i) % len(E[s.depth(i)])] for i in range(s.tau)]) for m in range(max(map(len, E.values())))]
    cls = [(s.t0, i) if i < s.t0 else (s.t1, i - s.t0) for i in range(s.tau)]
    rounds = max(-(-n[i] // cls[i][0]) for i in range(s.tau))
    return out + [pack(s, [(m * cls[i][0] + cls[i][1]) % n[i] for i in range(s.tau)]) for m in range(rounds)]


def judge_whole(ctx, s, d, l, chal):
    lb, n = s.lb, l // 8 + 2 * s.lb + 2
    stream = s.pk + 24 + s.lam * (lb + 2)
    if not d["outcomes"]:
        ctx.undec("whole|" + s.name, "faest_%s: no path through signing and verification returns for these challenges" % s.name)
    for o in d["outcomes"]:
        flags = {}
        for r in o["objs"]["verdict"]["runs"]:
            for b in range(r["off"], r["off"] + r["len"]):
                flags[b] = r.get("value") if r["kind"] == "const" else None
        for m, (raw, pos) in enumerate(chal):
            msg = "faest_%s, third challenge %s: " % (s.name, raw.hex())
            v = [flags.get(4 * m + i) for i in range(4)]
            if v[0] is None:
                ctx.undec("whole|" + s.name, msg + "the verdict of verification is not resolved")
            else:
                ctx.require(v[0] == 0, "honest signature accepted", "whole|" + s.name, msg + "faest_verify rejects the signature faest_sign has just made")
            for obj, per, what, anchor in (("qdiff", s.lam * n, "columns", 3), ("hdiff", stream, "hashed columns", 2), ("cdiff", lb, "challenge", 0)):
                if v[anchor] != 0 or (obj == "hdiff" and v[1] != 0):
                    if anchor:
                        ctx.undec("whole|%s|%s" % (obj, s.name), msg + "the %s are not observed where expected" % what)
                    continue
                good = 0
                for r in o["objs"][obj]["runs"]:
                    a, b = max(r["off"], m * per), min(r["off"] + r["len"], (m + 1) * per)
                    if a >= b:
                        continue
                    if r["kind"] == "const" and r["value"] == 0:
                        good += b - a
                        continue
                    q = a - m * per
                    where = {"qdiff": "column %d of tree %d, byte %d, is not v + bit * u of the signer" % (*tree_of(s, q // n)[::-1], q % n),
                             "hdiff": "byte %d of what is hashed before the second challenge differs from the signer's" % q,
                             "cdiff": "byte %d of the recomputed third challenge differs from the signer's" % q}[obj]
                    definite = (r["kind"] == "const") or (r["kind"] in ("id", "val") and r.get("exact")) or bool(r.get("name"))
                    text = msg + "in faest_verify " + where + (" (tree positions %s)" % pos) + " (term %s)" % (r.get("name") or r["kind"])
                    if definite and obj != "cdiff":
                        ctx.require(False, "verifier arrives at the signer's values", "whole|%s|%s" % (obj, s.name), text)
                    else:
                        ctx.undec("whole|%s|%s" % (obj, s.name), "not resolved: " + text)
                if good:
                    ctx.ok("verifier's value equals the signer's", good)


def tree_of(s, j):
    for i in range(s.tau):
        if j < s.depth(i):
            return i, j
        j -= s.depth(i)
    return s.tau, j


def judge(ctx, s, key, d, ellhat, chal):
    name, lb, n = s.name, s.lb, (ellhat + 7) // 8
    for o in d["outcomes"]:
        for obj, per in (("hdiff", 2 * lb), ("qdiff", s.lam * n)):
            good = bad = 0
            for r in o["objs"][obj]["runs"]:
                if r["off"] >= per * len(chal):
                    continue
                if r["kind"] == "const" and r["value"] == 0:
                    good += r["len"]
                    continue
                m, q = divmod(r["off"], per)
                where = "the commitment hash" if obj == "hdiff" else "column %d of tree %d" % tree_of(s, q // n)[::-1]
                t = tree_of(s, q // n)[0] if obj == "qdiff" else None
                pos = chal[m][1]
                msg = "faest_%s: opening and reconstructing for challenge %s (tree positions %s) gives a different value than was committed in %s, byte %d (term %s)" % (
                    name, chal[m][0].hex(), pos if t is None else pos[t], where, q % n if obj == "qdiff" else q, r.get("name") or r["kind"])
                definite = (r["kind"] == "const") or (r["kind"] in ("id", "val") and r.get("exact")) or bool(r.get("name"))
                if definite:
                    ctx.require(False, "reconstruction is the commitment", "%s|%s" % (obj, name), msg)
                else:
                    ctx.undec("%s|%s" % (obj, name), msg.replace("gives a different", "is not resolved to the same"))
                bad += r["len"]
            if good:
                ctx.ok("reconstructed byte equals committed byte", good)
        for m, x in enumerate(o.get("derive") or []):
            msg = "faest_%s: with challenge %s the opening " % (name, chal[m][0].hex())
            if x.get("checked"):
                ctx.require(not x["derivable"], "challenged leaf stays hidden", "hidden|" + name, msg + "reveals the seed of %d unopened leaf commitments (all inputs of the hash are derivable)" % x["derivable"])
                ctx.require(not x["leaked"], "sibling output of the challenged leaf stays hidden", "leak|" + name, msg + "reveals further output of %d hash calls that made the unopened leaves' commitments" % x["leaked"])
            if x.get("inexact") or not x.get("checked"):
                ctx.undec("derive|" + name, "origin of %s unopened commitment bytes not resolved" % (x.get("inexact") or "all"))


def run(ctx):
    try:
        bc = ctx.bc("vole", only=ctx.tree.core_sources() + [HARNESS])
    except fw.AnalysisError as e:
        ctx.undec("harness", "the driver does not compile against this tree's internal interface: %s" % str(e)[-600:])
        ctx.ok("driver compiled", 1)
        return
    jobs, meta = {}, {}
    for s in scen.sets(ctx.tree):
        if s.em:
            continue  # same tree and VOLE parameters
        fast = s.name.endswith("f")
        parts = (4 if ctx.thorough else 1) if fast else (128 if ctx.thorough else 4)
        for i, chal in enumerate(challenges(s, ctx.thorough, parts)):
            if not chal:
                continue
            key, ell = (s.name, "short", i), 40 if fast else 16
            jobs[key], meta[key] = scenario(s, IDS[s.name], ell, chal), (s, ell, chal)
        if s.name == "128f" or (ctx.thorough and fast):
            chal = challenges(s, False, 1)[0][1:3]
            key = (s.name, "full length", 0)
            jobs[key], meta[key] = scenario(s, IDS[s.name], s.ellhat * 8, chal), (s, s.ellhat * 8, chal)
    try:
        bc2 = ctx.bc("sign", only=[f for f in ctx.tree.core_sources() if f != "faest.c"] + [HARNESS2])
    except fw.AnalysisError as e:
        bc2 = None
        ctx.undec("harness", "the sign/verify driver does not compile against this tree's internal interface: %s" % str(e)[-600:])
    jobs2, meta2 = {}, {}
    for s in scen.sets(ctx.tree):
        if s.em or bc2 is None:
            continue
        ch = whole_challenges(s, ctx.thorough)
        step = 5 if s.name == "128f" else 2 if s.name.endswith("f") else 1
        for i in range(0, len(ch), step):
            l = s.l if ctx.thorough and i == 0 else 16
            key = (s.name, "sign/verify", i)
            jobs2[key], meta2[key] = whole(s, IDS[s.name], l, ch[i:i + step]), (s, l, ch[i:i + step])
        ch = standin_challenges(s, ctx.thorough)
        for i in range(0, len(ch), 64):
            key = (s.name, "sign/verify, commitment replaced", i)
            jobs2[key], meta2[key] = whole(s, IDS[s.name], 16, ch[i:i + 64], True), (s, 16, ch[i:i + 64])
    order = sorted(jobs2, key=lambda k: -meta2[k][0].k0 * meta2[k][0].lam)
    res = ctx.run({**{k: bc2 for k in order}, **{k: bc for k in jobs}}, {**{k: jobs2[k] for k in order}, **jobs})
    for key, d in res.items():
        if key in meta2:
            judge_whole(ctx, meta2[key][0], d, *meta2[key][1:])
            continue
        s, ellhat, chal = meta[key]
        judge(ctx, s, key, d, ellhat, chal)
    ctx.samples.append({"positions per tree": {s.name: {s.depth(0): len(positions(s.k0, ctx.thorough))} for s in scen.sets(ctx.tree) if not s.em}})
