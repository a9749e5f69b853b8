"""C02: verification accepts only after the full challenge comparison."""
import re

import scen

SPEC = {
    "level": "other",
    "technique": "abstract interpretation with verdict facts (must-equality of byte provenance on accepting outcomes)",
    "note": "Every accepting outcome of every verify function, for any key, message and signature, must carry must-equality facts for all challenge bytes; the value recomputed is the squeeze of one hash record. Numeric correctness of the recomputation is C03's transcript and C40 (not applicable).",
    "explain": "verify of every parameter set is interpreted from the API down to the hash; for each outcome whose return interval contains 0 the set of must-equalities between input bytes and hash-output bytes established on every path to it is compared with the challenge field of the signature.",
    "rule": "each outcome with 0 in its return interval has facts sig[S-16-lambda/8+i] == H_n[i] for every i < lambda/8 and one record n whose whole squeeze is lambda/8 bytes; wrong lengths and null arguments have no outcome with 0",
    "assumptions": ["memcmp/bcmp return 0 only on equality (models of libc)"],
}


def accepting(d):
    return [o for o in d["outcomes"] if o["ret"]["lo"] <= 0 <= o["ret"]["hi"]]


def run(ctx):
    sets = scen.sets(ctx.tree)
    bc = ctx.bc("ossl")
    jobs = {s.name: scen.heavy_verify(s) for s in sets}
    bcs = {k: bc for k in jobs}
    if ctx.thorough:
        port = ctx.bc("port", openssl=False, ndebug=True)
        for s in sets:
            jobs[s.name + ":port"], bcs[s.name + ":port"] = scen.heavy_verify(s), port
    res = ctx.run(bcs, jobs)
    by = {s.name: s for s in sets}
    for k, d in sorted(res.items()):
        s = by[k.split(":")[0]]
        acc = accepting(d)
        ctx.require(acc, "accepting outcome exists", "noaccept|" + k, "verify (%s) has no accepting outcome at all" % k)
        recs = {h["n"]: h for h in d["hashes"]}
        for o in acc:
            rets = o["ret"]
            retf = list(o.get("retFacts", ())) if o.get("retPol") == 1 else []  # equalities implied by the return value being zero
            ctx.require(rets["lo"] == rets["hi"] == 0 or o["facts"] or retf, "verdict separated", "mixed|" + k, "verify (%s): an outcome mixes acceptance and rejection" % k)
            eq = {}
            for f in list(o["facts"]) + retf:
                m = re.match(r"1:I:sig\+(\d+)#\d+:H(\d+)\+(\d+)#", f) or re.match(r"1:()()()$", f)
                if m:
                    eq.setdefault(int(m.group(1)), set()).add((int(m.group(2)), int(m.group(3))))
                else:
                    m = re.match(r"1:H(\d+)\+(\d+)#\d+:I:sig\+(\d+)#", f)
                    if m:
                        eq.setdefault(int(m.group(3)), set()).add((int(m.group(1)), int(m.group(2))))
            base = s.sig - 16 - s.lb
            cand = {n for n, off in eq.get(base, ()) if off == 0}
            good = None
            for n in cand:
                if all((n, i) in eq.get(base + i, ()) for i in range(s.lb)):
                    good = n
            missing = [i for i in range(s.lb) if not any(off == i for _, off in eq.get(base + i, ()))]
            for i in range(s.lb):
                ctx.require(good is not None or (i not in missing and cand), "challenge byte compared", "byte|" + s.name.split(":")[0], "verify (%s) can return 0 although challenge byte(s) %s of the signature are not established equal to the recomputed challenge" % (k, missing[:8] or "0.."))
            if good is not None:
                h = recs.get(good)
                ctx.require(h and h["sq"] and h["sq"][0][0] == 0 and h["sq"][0][1] == s.lb and not h["unbounded"] and len(h["alts"]) == 1, "recomputed challenge is one whole digest", "digest|" + s.name, "verify (%s): the value compared is not one complete digest of security-parameter length" % k)
                hh = h and h["label"]["may"]
                ctx.require(h and any(sg.startswith("H") for sg in h["alts"][0]["segs"]), "recomputed challenge chains to the transcript", "chain|" + s.name, "verify (%s): the compared digest does not absorb the preceding challenge" % k)
        if len(ctx.samples) < 3:
            ctx.samples.append({"set": k, "outcomes": [{"ret": o["ret"], "facts": len(o["facts"])} for o in d["outcomes"]]})
    # API level: no acceptance without running the verifier, and its verdict is passed on unchanged
    cj, cb = {}, {}
    for s in sets:
        msg = {"name": "msg", "sizeSym": {"sym": "mlen"}, "maybeNull": True, "readonly": True, "atom": "MSG", "dump": False}
        pk = {"name": "pk", "size": s.pk, "readonly": True}
        sy = [{"name": "mlen", "lo": 0, "hi": 2 ** 47}]
        for nm, slen in (("exact", {"int": s.sig}), ("short", {"range": [0, s.sig - 1]}), ("long", {"range": [s.sig + 1, -1]})):
            sig = {"name": "sig", "size": s.sig, "readonly": True}
            cj[(s.name, nm)] = scen.contract(s, "verify", [{"ptr": "pk"}, {"ptr": "msg"}, {"sym": "mlen"}, {"ptr": "sig"}, slen], [msg, pk, sig], sy)
    res = ctx.run(bc, cj)
    for (name, nm), d in res.items():
        for o in d["outcomes"]:
            if o["ret"]["lo"] <= 0 <= o["ret"]["hi"]:
                ev = [e for e in o["events"] if e.get("ev", e.get("e")) == "verify"]
                okv = nm == "exact" and len(ev) >= 1 and all(e["ret"] == 0 or e["ret"] == [0, 0] for e in ev)
                ctx.require(okv, "acceptance only through the verifier", "api|%s|%s" % (name, nm), "verify (%s) accepts a signature of %s length without a positive verdict of the verifier" % (name, nm))
            else:
                ctx.ok("rejecting outcome")
