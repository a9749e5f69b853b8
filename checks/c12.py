"""C12: parameter tables, size constants and signature layout agree."""
import os
import re

import fw
import scen
import trans

SPEC = {
    "level": "other",
    "technique": "abstract evaluation of the parameter lookups and header constants against the scheme's size identities; byte-provenance partition of the signature (writer) and absorbed/keyed ranges (reader)",
    "note": "Exhaustive over the twelve identifiers and, as one abstract run, all other 32-bit identifiers; layout for all inputs at once. Numeric oracle: the size identities of the FAEST v1 specification, evaluated from (family, lambda, tau) alone.",
    "explain": "A generated translation unit includes every public header and reads the lookups; abstract interpretation yields the constants. Signing of each set yields, for every signature byte, which challenge-dependent computation produced it; verification with one atom per field yields which bytes it absorbs, keys the generator with, and compares.",
    "rule": "macros = crypto_sign macros = table entries = identities; names and identifiers paired; every other identifier is all-zero; maxima cover every set; fields written and read tile [0, size) at the specified offsets; no access outside a fixed-capacity object",
    "assumptions": ["the size identities and repetition counts (11/16, 16/24, 22/32) of the FAEST v1 specification"],
}
TAUS = {("128", "s"): 11, ("128", "f"): 16, ("192", "s"): 16, ("192", "f"): 24, ("256", "s"): 22, ("256", "f"): 32}
FIELDS = ["lambda", "Nwd", "Ske", "R", "Senc", "l", "Lke", "Lenc", "tau", "k0", "k1", "t0", "t1", "sigSize", "pkSize"]
MAXIMA = ["MAX_LAMBDA", "MAX_LAMBDA_BYTES", "MAX_DEPTH", "MAX_TAU", "IV_SIZE", "UNIVERSAL_HASH_B"]


def oracle(name):
    """Every size of a parameter set, from its name."""
    em, lam, var = name.startswith("em_"), int(name[-4:-1]), name[-1]
    lb, nk = lam // 8, lam // 32
    nst = nk if em else 4
    r = 6 + nk
    tau = TAUS[(str(lam), var)]
    t0 = lam % tau
    k1 = lam // tau
    k0 = k1 + (1 if t0 else 0)
    beta = 1 if em or lam == 128 else 2
    ske = 0 if em else {128: 40, 192: 32, 256: 52}[lam]
    lke = 0 if em else lam + 8 * ske
    lenc = 32 * nst * (r - 1) + (lam if em else 0)
    ell = lke + beta * lenc
    pk = 2 * lb if em else 2 * 16 * beta
    sk = 2 * lb if em else 16 * beta + lb
    ellhat = ell // 8 + 2 * lb + 2
    sig = (tau - 1) * ellhat + lb + 2 + ell // 8 + lb + lam * lb + tau * 2 * lb + lb + 16
    return {"lambda": lam, "Nwd": nk, "Ske": ske, "R": r, "Senc": 4 * nst * r, "l": ell, "Lke": lke, "Lenc": lenc, "tau": tau, "k0": k0, "k1": k1,
            "t0": t0, "t1": tau - t0, "sigSize": sig, "pkSize": pk, "skSize": sk}


def probe(ctx, sets):
    d = os.path.join(ctx.work, "probe")
    os.makedirs(d, exist_ok=True)
    paths = []
    src = ["#include <instances.h>", "#include <stdint.h>"] + ["#include <faest_%s.h>" % s.name for s in sets]
    src.append("void probe_params(uint32_t id, uint32_t* out) { faest_paramset_t p = faest_get_paramset((faest_paramid_t) id); out[0] = p.faest_paramid;")
    src += ["out[%d] = p.faest_param.%s;" % (i + 1, f) for i, f in enumerate(FIELDS)]
    src.append("}\nvoid probe_name(uint32_t id, char* out) { const char* n = faest_get_param_name((faest_paramid_t) id); for (unsigned int i = 0; i != 40 && n[i]; ++i) out[i] = n[i]; }")
    src.append("void probe_consts(uint32_t* out) {")
    for i, s in enumerate(sets):
        P = s.v["PARAM"]
        src.append("out[%d] = FAEST_%s; out[%d] = FAEST_%s_PUBLIC_KEY_SIZE; out[%d] = FAEST_%s_PRIVATE_KEY_SIZE; out[%d] = FAEST_%s_SIGNATURE_SIZE;" % (4 * i, P, 4 * i + 1, P, 4 * i + 2, P, 4 * i + 3, P))
    for i, m in enumerate(MAXIMA):
        src.append("#ifdef %s\nout[%d] = %s;\n#endif" % (m, 4 * len(sets) + i, m))
    src.append("}")
    p = os.path.join(d, "probe.c")
    open(p, "w").write("\n".join(src) + "\n")
    paths.append(p)
    for s in sets:
        h = os.path.join(d, "cs_%s.h" % s.name)
        fw.subst(os.path.join(ctx.tree.repo, "crypto_sign.h.in"), h, s.v)
        c = os.path.join(d, "cs_%s.c" % s.name)
        open(c, "w").write('#include "cs_%s.h"\n#include <stdint.h>\nvoid probe_cs_%s(uint32_t* out, char* name) { out[0] = CRYPTO_PUBLICKEYBYTES; out[1] = CRYPTO_SECRETKEYBYTES; out[2] = CRYPTO_BYTES; const char* n = CRYPTO_ALGNAME; for (unsigned int i = 0; i != 40 && n[i]; ++i) out[0] = out[0], name[i] = n[i]; }\n' % (s.name, s.name))
        paths.append(c)
    return ctx.bc("probe", only=["instances.c"] + paths)


def words(d, nm="out"):
    """4-byte little-endian words of a dumped object; None where not a single constant."""
    o = d["outcomes"][0]["objs"][nm]
    n = max(r["off"] + r["len"] for r in o["runs"])
    by = [None] * n
    for r in o["runs"]:
        if r["kind"] == "const":
            by[r["off"]:r["off"] + r["len"]] = [r["value"]] * r["len"]
        elif r["kind"] == "cell" and r.get("lo") == r.get("hi") and "lo" in r:
            by[r["off"]:r["off"] + r["len"]] = list((r["lo"] & (256 ** r["len"] - 1)).to_bytes(r["len"], "little"))
    return by, [None if None in by[i:i + 4] else int.from_bytes(bytes(by[i:i + 4]), "little") for i in range(0, n - 3, 4)]


def out(n):
    return {"name": "out", "size": n, "init": "ones"}


def text(by):
    b = [x for x in by]
    if any(x is None for x in b):
        return None
    return bytes(b).split(b"\xff")[0].decode("latin1")


def tables(ctx, sets):
    bc = probe(ctx, sets)
    nf = len(FIELDS) + 1
    J = {("consts",): {"entry": "probe_consts", "dumpHash": False, "objs": [out(16 * len(sets) + 4 * len(MAXIMA))], "args": [{"ptr": "out"}]}}
    for s in sets:
        J[("cs", s.name)] = {"entry": "probe_cs_" + s.name, "dumpHash": False, "objs": [out(12), {"name": "nm", "size": 40, "init": "ones"}], "args": [{"ptr": "out"}, {"ptr": "nm"}]}
    for k in [{"int": i, "w": 32} for i in range(14)] + [{"range": [13, 2 ** 32 - 1]}, {"range": [14, 2 ** 32 - 1]}]:
        key = k.get("int", "%s.." % k.get("range", [0])[0])
        for fn, n in (("params", 4 * nf), ("name", 40)):
            J[(fn, key)] = {"entry": "probe_" + fn, "disjunctive": True, "dumpHash": False, "objs": [out(n)], "args": [k, {"ptr": "out"}]}
    R = ctx.run(bc, J)
    C = words(R[("consts",)])[1]
    ids = {}
    for i, s in enumerate(sets):
        o = oracle(s.name)
        ids[C[4 * i]] = s.name
        for nm, got, want in (("PUBLIC_KEY_SIZE", C[4 * i + 1], o["pkSize"]), ("PRIVATE_KEY_SIZE", C[4 * i + 2], o["skSize"]), ("SIGNATURE_SIZE", C[4 * i + 3], o["sigSize"])):
            ctx.require(got == want, "public macro", "macro|%s" % nm, "FAEST_%s_%s is %s, the scheme's size is %s" % (s.v["PARAM"], nm, got, want), where="faest_param.h.in")
        W = words(R[("cs", s.name)])[1]
        for nm, got, want in (("CRYPTO_PUBLICKEYBYTES", W[0], o["pkSize"]), ("CRYPTO_SECRETKEYBYTES", W[1], o["skSize"]), ("CRYPTO_BYTES", W[2], o["sigSize"])):
            ctx.require(got == want, "crypto_sign macro", "macro|%s" % nm, "%s of %s is %s, the scheme's size is %s" % (nm, s.name, got, want), where="crypto_sign.h.in")
        alg = text(words(R[("cs", s.name)], "nm")[0])
        ctx.require(alg == "faest_" + s.name, "algorithm name", "algname", "CRYPTO_ALGNAME of %s is %r" % (s.name, alg), where="crypto_sign.h.in")
    ctx.require(len(ids) == len(sets) and None not in ids, "identifiers distinct", "ids", "the parameter-set identifiers are not distinct: %s" % C[:4 * len(sets):4])
    names = {}
    for i in range(14):
        nm = text(words(R[("name", i)])[0])
        names[i] = nm
        d = R[("params", i)]
        for k in range(len(d["outcomes"])):
            w = words({"outcomes": [d["outcomes"][k]]})[1]
            if i in ids:
                o = oracle(ids[i])
                ctx.require(w[0] == i, "identifier returned", "id|%d" % i, "faest_get_paramset(%d) carries identifier %s" % (i, w[0]), where="instances.c")
                for f, x in zip(FIELDS, w[1:]):
                    ctx.require(x == o[f], "table entry", "table|%s|%s" % (ids[i], f), "parameter table entry %s of FAEST_%s is %s, the scheme requires %s" % (f, ids[i].upper(), x, o[f]), where="instances.c faest_get_paramset")
            else:
                ctx.require(all(x == 0 for x in w[:nf]), "invalid identifier maps to the invalid set", "invalid|%d" % i, "faest_get_paramset(%d) returns %s" % (i, w[:nf]), where="instances.c faest_get_paramset")
        if i in ids:
            ctx.require(nm == "FAEST_" + ids[i].upper(), "name", "name|%s" % ids[i], "faest_get_param_name of FAEST_%s returns %r" % (ids[i].upper(), nm), where="instances.c faest_get_param_name")
        else:
            ctx.require(nm is not None and (not nm.startswith("FAEST_")), "no set name for other identifiers", "name|other", "faest_get_param_name(%d) returns %r" % (i, nm), where="instances.c faest_get_param_name")
    lo = max([13] + [i + 1 for i in ids if i is not None])
    if lo in (13, 14):
        d = R[("params", "%d.." % lo)]
        for o in d["outcomes"]:
            w = words({"outcomes": [o]})[1]
            ctx.require(all(x == 0 for x in w[:nf]), "invalid identifier maps to the invalid set", "invalid|range", "faest_get_paramset of an identifier >= %d can return %s" % (lo, w[:nf]), where="instances.c faest_get_paramset")
        for o in R[("name", "%d.." % lo)]["outcomes"]:
            nm = text(words({"outcomes": [o]})[0])
            ctx.require(nm is not None and not nm.startswith("FAEST_"), "no set name for other identifiers", "name|other", "faest_get_param_name of an identifier >= %d can return %r" % (lo, nm), where="instances.c faest_get_param_name")
    for d in R.values():
        ctx.reports(d, ("oob", "null", "uninit", "freed"), "lookup")
    M = dict(zip(MAXIMA, C[4 * len(sets):]))
    need = {"MAX_LAMBDA": max(s.lam for s in sets), "MAX_LAMBDA_BYTES": max(s.lb for s in sets), "MAX_DEPTH": max(max(s.k0, s.k1) for s in sets), "MAX_TAU": max(s.tau for s in sets)}
    for m, n in need.items():
        if M[m] != 0xffffffff:
            ctx.require(M[m] is not None and M[m] >= n, "maximum covers every set", "max|" + m, "%s is %s, a parameter set needs %d" % (m, M[m], n), where="instances.h")
    for m, n in (("IV_SIZE", 16), ("UNIVERSAL_HASH_B", 2)):
        if M[m] != 0xffffffff:
            ctx.require(M[m] == n, "fixed size", "max|" + m, "%s is %s, the scheme requires %d" % (m, M[m], n), where="instances.h")


def ch(lab, which):
    return {a for a in lab[which] if a.startswith("CH")}


def writer(ctx, s, d):
    """Every signature byte is produced by the computation its field belongs to."""
    A = trans.Side(d, s, "sign")
    if A.outcome is None:
        ctx.violation("nosign|" + s.name, "%s: signing never succeeds" % s.fn("sign_with_randomness"))
        return
    runs = A.outcome["objs"]["sig"]["runs"]

    def over(o, n):
        return [r for r in runs if r["off"] < o + n and o < r["off"] + r["len"]]

    F = {f[0]: f[1:] for f in s.fields()}
    where = s.fn("sign_with_randomness")
    ctx.require(sum(n for _, n in F.values()) == s.sig, "fields fill the signature", "size|" + s.name, "%s: fields take %d bytes, the signature has %d" % (s.name, sum(n for _, n in F.values()), s.sig))
    base = None
    stage = {}
    for f, (o, n) in F.items():
        rr = over(o, n)
        labs = [r["label"] for r in rr]
        if any(set(x["may"]) & {"UNINIT", "MAYUNINIT"} for x in labs):
            ctx.violation("write|%s|%s" % (s.name, f), "%s: bytes of field %s [%d, %d) are not written" % (where, f, o, o + n))
            continue
        g = re.sub(r"\d+$", "", f) if f != "CHALL3" else f
        may = set().union(*[ch(x, "may") for x in labs])
        must = set.intersection(*[ch(x, "must") for x in labs])
        stage.setdefault(g, []).append((may, must, any("KEY" in x["may"] for x in labs), all("KEY" in x["may"] or "PKIN" in x["may"] for x in labs)))
    if not all(g in stage for g in ("C", "U", "D", "A", "PDEC", "COM", "CHALL3", "IV")):
        return
    base = set().union(*[x[0] for x in stage["C"]])
    wit = {}
    for g, xs in stage.items():
        for may, must, key, allsec in xs:
            ctx.ok("field provenance")
            if g in ("U", "A", "PDEC", "COM"):
                wit.setdefault(g, set()).update(may - base)
                good = bool(must - base)
            else:
                good = g == "CHALL3" or not (may - base)
            if g in ("C", "U", "PDEC", "COM", "IV"):
                good = good and not key
            if g in ("D", "A"):
                good = good and allsec
            ctx.require(good, "field bytes from their own computation", "field|%s|%s" % (s.name, g), "%s: bytes of field %s come from another computation (challenges %s, base %s%s)" % (where, g, sorted(may), sorted(base), ", depends on the key" if key else ""))
    ctx.require(all(len(wit[g]) == 1 for g in ("U", "A")) and wit["PDEC"] == wit["COM"] and not (wit["U"] & wit["A"]) and not (wit["A"] & wit["PDEC"]) and not (wit["U"] & wit["PDEC"]), "fields separated", "stages|" + s.name,
                "%s: fields overlap: %s" % (where, {k: sorted(v) for k, v in wit.items()}))
    for i in range(s.tau):   # an opening is one object: no run may cross into the neighbouring instance
        o = F["PDEC%d" % i][0]
        n = F["PDEC%d" % i][1] + F["COM%d" % i][1]
        for r in over(o, n):
            ctx.require(r["off"] >= o and r["off"] + r["len"] <= o + n, "opening of one instance", "opening|" + s.name, "%s: bytes [%d, %d) are written across the opening of instance %d [%d, %d)" % (where, r["off"], r["off"] + r["len"], i, o, o + n))
    a, off = A.at_sig(*F["CHALL3"])
    ctx.require(a is not None and off == 0, "challenge field is a digest", "chall3|" + s.name, "%s: the challenge field [%d, %d) is not one digest" % (where, F["CHALL3"][0], sum(F["CHALL3"])))
    b, off = A.at_sig(*F["IV"])
    ctx.require(b is not None and b != a, "IV field is a digest part", "iv|" + s.name, "%s: the IV field [%d, %d) is not taken from one digest" % (where, F["IV"][0], sum(F["IV"])))


def reader(ctx, s, d):
    """The verifier uses every field at the specified place."""
    B = trans.Side(d, s, "verify")
    F = {f[0]: f[1:] for f in s.fields()}
    where = s.fn("verify")
    absorbed = []
    for n, h in B.recs.items():
        if n == h["n"]:
            for toks, _ in B.flat(n):
                absorbed += [(t[1], t[2]) for t in toks if t[0] == "SIG"]
    cov = set()
    allowed = {}
    for f, (o, n) in F.items():
        for i in range(o, o + n):
            allowed[i] = f
    for o, n in absorbed:
        cov.update(range(o, o + n))
        ends = {allowed.get(o), allowed.get(o + n - 1)}
        fs = [allowed.get(i) for i in (o, o + n - 1)]
        good = None not in fs and F[fs[0]][0] == o and sum(F[fs[1]]) == o + n
        if fs[0] == fs[1] and fs[0] and fs[0].startswith("PDEC"):
            good = (o - F[fs[0]][0]) % s.lb == 0 and n == s.lb
        ctx.require(good, "absorbed range is whole fields", "range|" + s.name, "%s: absorbs signature bytes [%d, %d), which cut field %s" % (where, o, o + n, sorted(map(str, ends))))
    for g in ["C%d" % i for i in range(s.tau - 1)] + ["U", "D", "A", "IV"]:
        o, n = F[g]
        ctx.require(all(i in cov for i in range(o, o + n)), "field absorbed", "reads|%s|%s" % (s.name, g), "%s: field %s [%d, %d) is not absorbed as a whole" % (where, g, o, o + n))
    for p in d.get("prgs", []):
        atoms = {a for a in p["keyLabel"]["may"] if a in F}
        ctx.require(all(a.startswith("PDEC") or a in ("IV", "CHALL3") for a in atoms), "generator keyed by opened seeds only", "prgkey|" + s.name, "%s: a generator key comes from fields %s (%s)" % (where, sorted(atoms), p["where"]))
        m = re.match(r"^I:sig\+(\d+):(\d+)$", p["iv"])
        ctx.require(bool(m) and (int(m.group(1)), int(m.group(2))) == F["IV"], "generator IV is the IV field", "prgiv|" + s.name, "%s: a generator IV is %s, the field is at %d (%s)" % (where, p["iv"], F["IV"][0], p["where"]))
    lab = set()
    for h in d["hashes"]:
        lab |= {a for a in h["label"]["may"] if a.startswith(("COM", "PDEC"))}
    for i in range(s.tau):
        ctx.require("PDEC%d" % i in lab, "opened seeds used", "pdec|" + s.name, "%s: the seeds in PDEC%d never reach the commitments" % (where, i))
        ctx.require("COM%d" % i in lab, "commitment absorbed", "com|" + s.name, "%s: COM%d is never absorbed" % (where, i))
    cmp_ = set()
    for o in d["outcomes"]:
        for f in o["facts"]:
            m = re.match(r"1:I:sig\+(\d+)#\d+:H\d+\+(\d+)#", f) or re.match(r"1:H\d+\+\d+#\d+:I:sig\+(\d+)#", f)
            if m:
                cmp_.add(int(m.group(1)))
    o, n = F["CHALL3"]
    ctx.require(cmp_ == set(range(o, o + n)) or cmp_ == {o}, "challenge field compared", "cmp|" + s.name, "%s: compares signature bytes %s with the recomputed challenge, the field is [%d, %d)" % (where, sorted(cmp_)[:8], o, o + n))


def run(ctx):
    sets = scen.sets(ctx.tree)
    tables(ctx, sets)
    bc = ctx.bc("ossl")
    J = {}
    for s in sets:
        J[(s.name, "s")] = scen.heavy_sign(s, owf="true")
        J[(s.name, "v")] = scen.heavy_verify(s, segs=[{"off": o, "len": n, "atom": a} for a, o, n in s.fields()])
    R = ctx.run(bc, J)
    for s in sets:
        writer(ctx, s, R[(s.name, "s")])
        reader(ctx, s, R[(s.name, "v")])
        for k in "sv":
            ctx.reports(R[(s.name, k)], ("oob",), "fixed-capacity object exceeded")
    ctx.samples.append({"fields": [list(f) for f in sets[0].fields()[-4:]]})
