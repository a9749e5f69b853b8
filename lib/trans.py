"""Hash transcripts in canonical form, comparable between signing and verification."""
import re


class Tok(tuple):
    """(source, offset, length): source in PK, SIG, MSG, IN:<obj>, H<n>, P, ?, const."""


def parse_part(p):
    m = re.match(r"^I:([\w.]+)\+(\d+):(\d+)$", p)
    if m:
        return ("IN:" + m.group(1), int(m.group(2)), int(m.group(3)))
    m = re.match(r"^([HOPRv])(\d+)(?:\+(\d+))?:(\d+)$", p)
    if m:
        return (m.group(1) + m.group(2), int(m.group(3) or 0), int(m.group(4)))
    m = re.match(r"^\?(\d+)$", p)
    if m:
        return ("?", 0, int(m.group(1)))
    m = re.match(r"^c([0-9a-fA-F]+)$", p)
    if m:
        return ("const", m.group(1), len(m.group(1)) // 2)
    m = re.match(r"^Y:([\w.]+)\[(.*)\]$", p)
    if m:
        return ("SYM:" + m.group(1), m.group(2), None)
    return ("?raw:" + p, 0, None)


def parse(segs):
    out = []
    for s in segs:
        for p in (s.split(",") if not s.startswith("Y:") else [s]):
            out.append(parse_part(p))
    return out


class Side:
    """One run (sign or verify) with its own naming of the same values."""

    def __init__(self, d, s, role):
        self.d, self.s, self.role = d, s, role
        self.recs = {}
        for h in d["hashes"]:
            for a, b in h.get("members", [[h["n"], h["n"]]]):
                for n in range(a, b + 1):
                    self.recs.setdefault(n, h)
        for h in d["hashes"]:
            self.recs[h["n"]] = h
        # names of bytes that end up in the signature
        self.named, self.vals = [], []
        self.outcome = None
        if role == "sign":
            for o in d["outcomes"]:
                if o["ret"]["lo"] == 0 == o["ret"]["hi"]:
                    self.outcome = o
                    for r in o["objs"]["sig"]["runs"]:
                        if r["kind"] == "id":
                            m = re.match(r"^([HOPR]\d+|I:[\w.]+)\+(\d+)$", r["name"])
                            if m:
                                self.named.append((m.group(1).replace("I:", "IN:"), int(m.group(2)), r["len"], r["off"]))
                        elif r["kind"] == "val" and r.get("name"):
                            self.vals.append((int(r["name"][1:]), r["len"], r["off"]))
                    break
        self.vals.sort()
        self._flat = {}

    def canon(self, t):
        """Splits a token into canonical tokens."""
        src, off, ln = t
        s = self.s
        if self.role == "sign":
            for n, o, l, so in self.named:
                if src == n and o <= off and off + (ln or 0) <= o + l:
                    return [("SIG", so + off - o, ln)]
            if src.startswith("v"):
                base = int(src[1:]) + off
                out, end = [], base + ln
                while base < end:
                    hit = [(b, l, so) for b, l, so in self.vals if b <= base < b + l]
                    if hit:
                        b, l, so = hit[0]
                        n = min(end, b + l) - base
                        out.append(("SIG", so + base - b, n))
                    else:
                        nxt = min([b for b, _, _ in self.vals if base < b < end] + [end])
                        n = nxt - base
                        out.append(("?", 0, n))
                    base += n
                return out
            if src == "IN:sk" and off + ln <= s.half:
                return [("PK", off, ln)]
            if re.match(r"^O\d+$", src):
                return [("PK", s.half + off, ln)]
        else:
            if src == "IN:pk":
                return [("PK", off, ln)]
            if src == "IN:sig":
                return [("SIG", off, ln)]
            if src.startswith("v"):
                return [("?", 0, ln)]
        if src[0] == "P" and src != "PK":
            return [("?", 0, ln)]
        if src[0] == "H":
            n = int(src[1:])
            h = self.recs.get(n)
            if h and self.suffix(h) == "00":
                return [("?", 0, ln)]     # leaf commitments: compared by length here, in full by leaf rule
        return [t]

    def suffix(self, h):
        """Trailing constant of the absorbed string (the domain separator), if the same on every path."""
        r = set()
        for a in h["alts"]:
            p = parse(a["segs"][-1:])[-1] if a["segs"] else None
            r.add(p[1] if p and p[0] == "const" else None)
        return r.pop() if len(r) == 1 else None

    def flat(self, n):
        """Canonical absorbed token lists of record n: [(tokens, symconstraint)], adjacent ranges merged."""
        if n in self._flat:
            return self._flat[n]
        h = self.recs[n]
        out = []
        for a in h["alts"]:
            toks = []
            for t in parse(a["segs"]):
                for c in self.canon(t):
                    if toks and c[2] is not None and toks[-1][2] is not None and toks[-1][0] == c[0] and c[0] != "const" and (c[0] == "?" or toks[-1][1] + toks[-1][2] == c[1]):
                        toks[-1] = (c[0], toks[-1][1], toks[-1][2] + c[2])
                    else:
                        toks.append(c)
            out.append((toks, a.get("symc", [])))
        self._flat[n] = out
        return out

    def at_sig(self, off, ln):
        """Record whose squeeze supplies bytes [off, off+ln) of the signature (sign side)."""
        for n, o, l, so in self.named:
            if n[0] == "H" and so <= off and off + ln <= so + l:
                return int(n[1:]), o + off - so
        return None, None


def show(t):
    return "%s[%s%s]" % (t[0], t[1] if t[0] != "?" else "", "" if t[2] is None else "+%s" % t[2])
