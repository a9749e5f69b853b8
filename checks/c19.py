"""C19: no secret byte is copied into an output."""
import re

import scen
import suite
import trans

SPEC = {
    "level": "other",
    "technique": "byte-identity provenance (copy detection) plus must-dependence labels on every output byte",
    "note": "All inputs and paths of the twelve sets; an output byte is tracked by identity through copies, joins keep only identities and dependences common to all paths. Which opened nodes the challenge selects is a value-level question and not decided (C40).",
    "explain": "Signing is interpreted with abstract key and randomness; for every signature byte the analysis yields its identity (verbatim copy of an input, hash output, generator output byte) and the sets of sources it may and must depend on. Key generation yields the same for the public key.",
    "rule": "no output byte is an identity copy of a key byte, a randomness byte, a root-secret byte, a leaf seed or first-level generator output; a byte that depends on key or randomness also depends, on every path, on the generator, the hash or the one-way function; opened seeds are generator outputs below the first level",
    "assumptions": ["generator, hash and one-way function outputs do not reveal their inputs"],
}
MASK = {"PRG2", "HASH", "OWF"}


def sign(ctx, s, d, rho, cn):
    A = trans.Side(d, s, "sign")
    f = "%s (%s, rho %s)" % (s.fn("sign_with_randomness"), cn, rho)
    rn, off = A.at_sig(s.sig - 16, 16)
    if rn is None:      # the IV is not one hash output: take the record that keys the instance trees
        for p in d.get("prgs", []):
            m = re.match(r"^H(\d+)\+(\d+):(\d+)$", p["key"])
            if m and A.suffix(A.recs[int(m.group(1))]) != "00":
                rn = int(m.group(1))
                break
    rootsq = []
    for p in d.get("prgs", []):
        m = re.match(r"^H(\d+)\+(\d+):(\d+)$", p["key"])
        if m and int(m.group(1)) == rn:
            rootsq.append((int(m.group(2)), int(m.group(2)) + int(m.group(3))))
    rootsq = rootsq or [(0, s.lb)]
    fields = s.fields()

    def field(i):
        return next((n for n, o, l in fields if o <= i < o + l), "behind the end")

    def copied(src, so, n):
        if src == "I:sk" and so + n > s.half:
            return "a byte of the secret key"
        if src == "I:rho" or src[0] == "R":
            return "a byte of the signing randomness"
        if src == "LEAF":
            return "a leaf seed" if so < s.lb else None
        if re.match(r"^H\d+$", src):
            if int(src[1:]) == rn and any(so < b and so + n > a for a, b in rootsq):
                return "a byte of the root secret"
            if A.recs.get(int(src[1:])) and A.suffix(A.recs[int(src[1:])]) == "00" and so < s.lb:
                return "a leaf seed"
        return None

    for o in d["outcomes"]:
        for nm in ("sig", "siglen"):
            ob = o["objs"].get(nm)
            for r in ob["runs"] if ob else []:
                may, must = set(r["label"]["may"]), set(r["label"]["must"])
                at = "byte %d of %s" % (r["off"], "the signature (%s)" % field(r["off"]) if nm == "sig" else "the signature length")
                name = r.get("name") or ""
                m = re.match(r"^(I:[\w.]+|[HOPRv]\d+)\+(\d+)$", name)
                bad = copied(m.group(1), int(m.group(2)), r["len"]) or ("an instance root seed" if m.group(1)[0] == "P" and "PRG2" not in must else None) if m else None
                for x in sorted(may):
                    c = re.match(r"^CP:(\S+?)(?:\+(\d+))?$", x)
                    cls = c and ("an instance root seed" if c.group(1) == "P" else copied(c.group(1), int(c.group(2) or 0), 8))
                    ctx.require(not cls, "output byte is no copy of a secret on any path", "pcopy|%s|%s" % (nm, cls), "%s: %s is a verbatim copy of %s on some path (%s)" % (f, at, cls, x))
                ctx.require(bad is None, "output byte is no copy of a secret", "copy|%s|%s" % (nm, bad), "%s: %s is a verbatim copy of %s (%s)" % (f, at, bad, name))
                if may & {"KEY", "RHO", "RNG"}:
                    ctx.require(bool(must & MASK), "secret-dependent byte is masked", "mask|%s|%s" % (nm, re.sub(r"\d+$", "", field(r["off"]))), "%s: %s depends on %s but on some path not on a mask (always depends on %s)" % (f, at, sorted(may & {"KEY", "RHO", "RNG"}), sorted(must)))
                if nm == "sig" and (o["ret"]["lo"] <= 0 <= o["ret"]["hi"]):
                    fl = field(r["off"])
                    if fl in ("D", "A"):
                        ctx.require("PRG2" in must, "witness masked by the generator", "mask|" + fl, "%s: %s is not masked with generator output on every path (depends on %s)" % (f, at, sorted(must)))
                    if fl.startswith("PDEC"):
                        ctx.require("PRG2" in must, "opened seed below the first level", "open", "%s: %s may be an instance root seed or another value that is no inner tree node" % (f, at))
    ctx.samples.append({"set": s.name, "rho": rho, "root_record": rn}) if len(ctx.samples) < 6 else None


def keygen(ctx, s, d):
    f = s.fn("keygen")
    for o in d["outcomes"]:
        sk = o["objs"]["sk"]["runs"]
        sec = set()
        for r in sk:
            m = re.match(r"^(.*)\+(\d+)$", r.get("name") or "")
            if m:
                for i in range(r["len"]):
                    if r["off"] + i >= s.half:
                        sec.add((m.group(1), int(m.group(2)) + i))
        for r in o["objs"]["pk"]["runs"]:
            m = re.match(r"^(.*)\+(\d+)$", r.get("name") or "")
            hit = m and any((m.group(1), int(m.group(2)) + i) in sec for i in range(r["len"]))
            ctx.require(not hit, "public-key byte is no copy of the key", "pk", "%s: byte %d.. of the public key is a verbatim copy of a secret-key byte (%s, return %s)" % (f, r["off"], r.get("name"), o["ret"]["lo"]))
            for x in r["label"]["may"]:
                c = re.match(r"^CP:(.*)\+(\d+)$", x)
                hit = c and any((c.group(1), int(c.group(2)) + i) in sec for i in range(8))
                ctx.require(not hit, "public-key byte is no copy of the key on any path", "pkp", "%s: byte %d of the public key is a verbatim copy of a secret-key byte on some path (%s)" % (f, r["off"], x))
            if r["off"] >= s.half and "RNG" in r["label"]["may"]:
                ctx.require("OWF" in r["label"]["must"], "output half through the one-way function", "pkowf", "%s: byte %d of the public key depends on the secret key but not through the one-way function" % (f, r["off"]))


def run(ctx):
    sets = scen.sets(ctx.tree)
    M = {s.name: s for s in sets}
    J, B = {}, {}
    cfgs = [("OpenSSL", ctx.bc("ossl"))] + ([("self-contained", ctx.bc("port", openssl=False, ndebug=True))] if ctx.thorough else [])
    for cn, bc in cfgs:
        for s in sets:
            for rho in ("full", "sym", "none") if ctx.thorough or s.name.endswith("f") else ("full",):
                q = J[("sign", cn, s.name, rho)] = scen.heavy_sign(s, rho=rho)
                q["objs"] = [dict(o, watch=True) if o["name"] in ("sig", "siglen") else o for o in q["objs"]]
                B[("sign", cn, s.name, rho)] = bc
            q = J[("keygen", cn, s.name)] = dict(suite.api(s)["keygen"][0])
            q["objs"] = [dict(o, watch=True) if o["name"] == "pk" else o for o in q["objs"]]
            B[("keygen", cn, s.name)] = bc
    for k, d in ctx.run(B, J).items():
        if k[0] == "sign":
            sign(ctx, M[k[2]], d, k[3], k[1])
        else:
            keygen(ctx, M[k[2]], d)
