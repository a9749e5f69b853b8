"""C14: the signed-message wrappers release a message only after verification of exactly the embedded parts."""
import scen
import suite

SPEC = {
    "level": "other",
    "technique": "event-order (typestate) analysis of the wrapper functions with symbolic message length, over all results of the functions they call",
    "note": "All message lengths at once (symbolic, below 2^47), short inputs, separate, identical and shifted overlapping buffers, both results of the wrapped operation; twelve sets.",
    "explain": "crypto_sign, crypto_sign_open and crypto_sign_keypair of each set are interpreted path-sensitively; calls of the scheme and every copy are events with symbolic lengths and offsets, which are compared with the contract.",
    "rule": "open: length < S rejected untouched; verify(pk, sm, n-S, sm+n-S, S) precedes every write to m and mlen, which stay untouched if it fails; on success mlen = n-S and m = memmove of sm[0,n-S). sign: memmove of m to sm precedes sign, which reads the moved message and writes sm+mlen with capacity >= S; smlen = mlen+S; its failure is returned",
    "assumptions": ["stubs enumerate all results of the wrapped functions"],
}


def lin(v, sym, c=0, rng=None):
    """v is sym + c on this path."""
    if sym is None:
        return v.get("lo") == v.get("hi") == c and not v.get("sym")
    if v.get("sym") == sym:
        return v.get("k") == 1 and v.get("c", 0) == c
    return rng is not None and rng[0] == rng[1] and v.get("lo") == v.get("hi") == rng[0] + c


def ptr(v, obj, sym=None, c=0, rng=None):
    return v.get("obj") == obj and lin(v["off"], sym, c, rng)


def scenarios(s):
    J = {}
    for k, q in suite.wrappers(s).items():
        J[k] = dict(q, logCopy=True, objs=[dict(o, dump=True) for o in q["objs"]])
    q = J["sign overlap"]
    J["sign shifted"] = dict(q, args=[q["args"][0], q["args"][1], {"ptr": "sm", "off": 16}] + q["args"][3:])
    q = J["open overlap"]
    J["open shifted"] = dict(q, args=[{"ptr": "sm", "off": 16}] + q["args"][1:])
    q = J["open"]
    J["open exact"] = dict(q, args=q["args"][:3] + [{"int": s.sig}, q["args"][4]], objs=[dict(o, **({"size": s.sig} if o["name"] == "sm" else {"size": 1, "init": "uninit"} if o["name"] == "m" else {})) for o in q["objs"]], syms=[])
    for o in J["open exact"]["objs"]:
        o.pop("sizeSym", None)
    return J


def judge(ctx, s, k, d):
    what = "%s (%s)" % (d["entry"], k)
    kind = k.split(" ")[0]
    key = kind + "|"
    S = s.sig
    zeros = 0
    moff = 16 if "shifted" in k else 0
    over = "overlap" in k or "shifted" in k
    for o in d["outcomes"]:
        ev, r, ob = o["events"], o["ret"], o["objs"]
        zero = r["lo"] <= 0 <= r["hi"]
        calls = [(i, e) for i, e in enumerate(ev) if e["ev"] == "call"]
        copies = [(i, e) for i, e in enumerate(ev) if e["ev"] in ("memmove", "memcpy")]
        rng = o["syms"].get("mlen")
        if kind == "keypair":
            ctx.require(len(calls) == 1 and ptr(calls[0][1]["args"][0], "pk") and ptr(calls[0][1]["args"][1], "sk"), "one key generation", key + "call", "%s does not call key generation once with (pk, sk)" % what)
            ctx.require(calls and zero == (calls[-1][1]["ret"] == 0), "result passed on", key + "ret", "%s: result does not follow that of key generation" % what)
            zeros += zero
            continue
        if k == "open short":
            ctx.require(not zero, "short input rejected", key + "short", "%s accepts an input shorter than a signature (lengths %s)" % (what, o["syms"]))
            ctx.require(not calls and not ob["m"]["touched"] and not ob["mlen"]["touched"], "outputs untouched", key + "short-touch", "%s processes an input shorter than a signature" % what)
            continue
        zeros += zero
        ctx.require(not zero or len(calls) == 1, "wrapped operation called once", key + "once", "%s: success with %d calls of the wrapped operation" % (what, len(calls)))
        if calls:
            ctx.require(zero == (calls[-1][1]["ret"] == 0), "result passed on", key + "ret", "%s: wrapped operation returns %s, wrapper returns %s" % (what, calls[-1][1]["ret"], r["lo"]))
        else:
            ctx.require(not zero, "no success without the operation", key + "none", "%s: success without calling the wrapped operation" % what)
            ctx.violation(key + "reject", "%s rejects an acceptable input (length %s)" % (what, rng))
            continue
        ci, c = calls[0]
        a = c["args"]
        if kind == "open":
            sym = None if k == "open exact" else "mlen"
            rg = (0, 0) if k == "open exact" else rng
            mobj, moffc = ("sm", moff) if over else ("m", 0)
            ctx.require(ptr(a[0], "pk"), "public key passed", key + "pk", "%s: verification is called with another public key" % what)
            ctx.require(ptr(a[1], "sm") and lin(a[2], sym, 0, rg), "embedded message verified", key + "msg", "%s: verifies %s with length %s instead of the embedded message" % (what, a[1], a[2]))
            ctx.require(ptr(a[3], "sm", sym, 0, rg) and lin(a[4], None, S), "trailing signature verified", key + "sig", "%s: verifies %s with length %s instead of the trailing signature" % (what, a[3], a[4]))
            for n in ["mlen"] + ([] if over else ["m"]):
                if not zero:
                    ctx.require(not ob[n]["touched"], "nothing released without verification", key + "release|" + n, "%s: writes %s although verification failed" % (what, n))
            ctx.require(all(i > ci for i, e in copies if e["dst"] == mobj), "no copy before verification", key + "early", "%s: copies the message before verification" % what)
            if over and not zero:
                ctx.require(not ob["sm"]["touched"], "buffer untouched without verification", key + "release|sm", "%s: writes the buffer although verification failed" % what)
            if zero:
                cell = ob["mlen"]["runs"][0]
                good = len(ob["mlen"]["runs"]) == 1 and cell["kind"] == "cell" and lin(cell, sym, 0, rg) if k != "open exact" else all(x.get("value", x.get("lo")) == 0 for x in ob["mlen"]["runs"])
                ctx.require(good, "length released", key + "len", "%s: message length reported as %s" % (what, {q: cell.get(q) for q in ("lo", "hi", "sym", "c")}))
                copy_ok(ctx, what, key, copies, "sm", 0, mobj, moffc, sym, rg, over, k != "open exact")
        else:
            mobj = "sm" if over else "msg"
            idx = copy_ok(ctx, what, key, copies, mobj, moff, "sm", 0, "mlen", rng, over, True)
            ctx.require(ptr(a[0], "sk"), "secret key passed", key + "sk", "%s: signs with another key" % what)
            direct = ptr(a[3], "sm", "mlen", 0, rng)
            moved = ptr(a[1], "sm") and (idx is None or idx < ci)
            before = ptr(a[1], mobj, None, moff) and (not over or (idx is None or idx > ci) and not direct) or mobj == "msg" and ptr(a[1], "msg")
            ctx.require((moved or before) and lin(a[2], "mlen", 0, rng), "message signed", key + "msg", "%s: signs %s with length %s, which is not the intact message" % (what, a[1], a[2]))
            later = [e for i, e in copies if i > ci and e["dst"] == "sm" and lin(e["doff"], "mlen", 0, rng) and lin(e["len"], None, S) and e["src"] == a[3].get("obj") and e["soff"] == a[3].get("off")]
            ctx.require(direct or not zero or later, "signature behind the message", key + "sig", "%s: signature is written to %s" % (what, a[3]))
            if direct:
                ctx.require(idx is None or idx < ci, "signature not overwritten", key + "order", "%s: the message is moved after the signature was written" % what)
                cap = c.get("value4", {})
                ctx.require(cap.get("lo") == cap.get("hi") == S, "capacity announced", key + "cap", "%s: announces capacity %s instead of %d" % (what, cap, S))
            if zero:
                runs = ob["smlen"]["runs"]
                ctx.require(len(runs) == 1 and runs[0]["kind"] == "cell" and lin(runs[0], "mlen", S, rng), "total length reported", key + "len", "%s: total length reported as %s" % (what, {q: runs[0].get(q) for q in ("lo", "hi", "sym", "c")}))
    if k != "open short":
        ctx.require(zeros > 0, "success possible", key + "zero|" + k, "%s can never succeed" % what)
    ctx.reports(d, ("oob", "null", "overlap", "uninit", "write-input"), "unsafe access in a wrapper")


def copy_ok(ctx, what, key, copies, src, soff, dst, doff, sym, rng, over, need):
    """The message bytes are moved from src+soff to dst+doff, exactly sym bytes; returns the event index."""
    same = src == dst and soff == doff
    hit = [(i, e) for i, e in copies if e["dst"] == dst and lin(e["doff"], None, doff) and e["src"] == src and lin(e["soff"], None, soff) and lin(e["len"], sym, 0, rng)]
    empty = rng is not None and rng[1] == 0
    ctx.require(hit or same or empty or not need, "message copied completely", key + "copy", "%s: the message is not copied with its exact length" % what)
    if over and not same:
        ctx.require(all(e["ev"] == "memmove" for _, e in hit), "overlap-safe copy", key + "memcpy", "%s: copies overlapping buffers with memcpy" % what)
    if over and same:
        ctx.require(all(e["ev"] == "memmove" for i, e in copies if e["dst"] == dst and e["src"] == src), "overlap-safe copy", key + "memcpy", "%s: copies overlapping buffers with memcpy" % what)
    bad = [e for i, e in copies if e["dst"] == dst and (i, e) not in hit and e["src"] == src]
    ctx.require(not bad, "no other copy of the message", key + "other", "%s: copies the message with another length or offset" % what)
    return hit[-1][0] if hit else None


def run(ctx):
    sets = scen.sets(ctx.tree)
    bc = ctx.bc("ossl-w", wrappers=True)
    J, M = {}, {}
    for s in sets:
        for k, q in scenarios(s).items():
            J[(s.name, k)], M[(s.name, k)] = q, s
    for k, d in ctx.run(bc, J).items():
        judge(ctx, M[k], k[1], d)
    ctx.samples.append({"scenarios per set": sorted({k[1] for k in J})})
