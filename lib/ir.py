"""Textual queries over the linked LLVM IR: globals, call graph, stores to globals."""
import re
import shutil
import subprocess

import fw


def tool(n):
    return n + "-18" if shutil.which(n + "-18") else n


def text(bc, passes=None):
    if passes is None:
        return fw.sh([tool("opt"), "-S", "-passes=verify", bc])
    return fw.sh([tool("opt"), "-S"] + passes + [bc])


NAME = r'@(?:"([^"]+)"|([\w.$-]+))'


class IR:
    def __init__(self, bc, passes=None):
        t = text(bc, passes)
        self.globals, self.calls, self.refs, self.body, self.decls = {}, {}, {}, {}, set()
        cur = None
        for ln in t.split("\n"):
            if ln.startswith("@"):
                m = re.match("^" + NAME + r" = (.*)$", ln)
                self.globals[m.group(1) or m.group(2)] = m.group(3)
            elif ln.startswith("define "):
                cur = self.nm(re.search(NAME + r"\(", ln))
                self.calls[cur], self.refs[cur], self.body[cur] = set(), set(), []
            elif ln.startswith("declare "):
                self.decls.add(self.nm(re.search(NAME + r"\(", ln)))
            elif ln == "}":
                cur = None
            elif cur and not ln.lstrip().startswith((";", "#dbg", "!")):
                ln = re.sub(r", !\w+ ![\d{].*$", "", ln)
                if "@llvm.dbg." in ln:
                    continue
                self.body[cur].append(ln)
                for m in re.finditer(NAME, ln):
                    n = self.nm(m)
                    self.refs[cur].add(n)
                m = re.search(r"\b(?:call|invoke)\b.*?" + NAME + r"\(", ln)
                if m:
                    self.calls[cur].add(self.nm(m))

    @staticmethod
    def nm(m):
        return m.group(1) or m.group(2)

    def mutable(self):
        """Defined, non-constant globals of the library."""
        return {n: d for n, d in self.globals.items() if not n.startswith("llvm.") and re.search(r"\bglobal\b", d.split(" ptr ")[0]) and not re.search(r"\bexternal\b", d)}

    def reach(self, root):
        """Call path tree from root following calls and address-taken functions: {function: predecessor}."""
        pred, work = {root: None}, [root]
        while work:
            f = work.pop()
            for g in sorted(self.refs.get(f, ())):
                if g not in pred and (g in self.body or g in self.decls):
                    pred[g] = f
                    work.append(g)
        return pred

    @staticmethod
    def path(pred, f):
        out = []
        while f:
            out.append(f)
            f = pred[f]
        return " <- ".join(out)

    def writers(self, g):
        """Functions with an instruction that may write global g: addresses derived from it are followed through address
        arithmetic, joins, arguments of defined functions and returned pointers, to a fixpoint."""
        q = re.compile(r'@(?:"%s"|%s)(?![\w.$-])' % (re.escape(g), re.escape(g)))
        out, der, rets = set(), {}, set()      # der: function -> registers holding an address inside g
        work = [f for f in self.body if g in self.refs[f]]
        seen = set(work)

        def add(f, r):
            if r not in der.setdefault(f, set()):
                der[f].add(r)
                if f not in work:
                    work.append(f)
        while work:
            f = work.pop()
            D = der.setdefault(f, set())
            again = True
            while again:
                again = False
                for ln in self.body[f]:
                    regs = set(re.findall(r"%[\w.-]+", ln))
                    call = re.search(r"\b(?:call|invoke)\b[^@]*?" + NAME + r"\((.*)$", ln)
                    callee = self.nm(call) if call else None
                    if not (q.search(ln) or regs & D or callee in rets):
                        continue
                    m = re.match(r"\s*(%[\w.-]+) = (getelementptr|bitcast|select|phi|addrspacecast|freeze|call|tail call)\b", ln)
                    if m and (m.group(2) not in ("call", "tail call") or callee.startswith("llvm.threadlocal.address") or callee in rets) and m.group(1) not in D:
                        D.add(m.group(1))
                        again = True
                    if re.search(r"^\s*store\b", ln):
                        dst = ln.split(", ptr ", 1)[1] if ", ptr " in ln else ln
                        if q.search(dst) or set(re.findall(r"%[\w.-]+", dst)) & D:
                            out.add(f)
                    elif re.search(r"\b(atomicrmw|cmpxchg)\b", ln):
                        out.add(f)
                    elif re.search(r"@llvm\.(memcpy|memmove|memset)", ln):
                        first = ln.split("(", 1)[1].split(", ")[0]
                        if q.search(first) or set(re.findall(r"%[\w.-]+", first)) & D:
                            out.add(f)
                    elif re.match(r"\s*ret ptr ", ln):
                        if f not in rets:
                            rets.add(f)
                            for h in self.body:
                                if f in self.refs[h] and h not in work:
                                    work.append(h)
                    elif call and callee in self.body:
                        for k, a in enumerate(split_args(call.group(call.lastindex))):
                            if (q.search(a) or set(re.findall(r"%[\w.-]+", a)) & D) and re.match(r"\s*ptr\b", a):
                                add(callee, "%%%d" % k)
                    elif call and callee in EXTWRITES and not callee.startswith("llvm."):
                        for k in EXTWRITES[callee]:
                            a = (split_args(call.group(call.lastindex)) + [""] * 9)[k]
                            if q.search(a) or set(re.findall(r"%[\w.-]+", a)) & D:
                                out.add(f)
        return out


EXTWRITES = {"memcpy": [0], "memmove": [0], "memset": [0], "explicit_bzero": [0], "bzero": [0], "getrandom": [0], "arc4random_buf": [0], "read": [1],
             "EVP_EncryptUpdate": [1, 2], "EVP_EncryptFinal_ex": [1, 2]}


def split_args(s):
    out, cur, depth = [], "", 0
    for ch in s:
        if ch == ")" and depth == 0:
            break
        depth += ch in "([{<"
        depth -= ch in ")]}>"
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def thresholds(ir, funcs, lo=2, hi=1 << 22):
    """Constants the given functions compare, mask, divide or advance lengths by."""
    out = set()
    for f in funcs:
        for ln in ir.body.get(f, ()):
            m = re.search(r"= (icmp \w+|and|or|add|sub|mul|udiv|urem|lshr|shl|select|call i\d+ @llvm\.u?s?m(?:in|ax)\.i\d+)\b(.*)$", re.sub(r"\b(nuw|nsw|exact)\b ?", "", ln))
            if not m or not re.search(r"\bi(32|64)\b", m.group(2)):
                continue
            for c in re.findall(r"(?<![\w%.@-])-?\d+\b", m.group(2)):
                c = abs(int(c))
                if m.group(1) in ("lshr", "shl") and c < 24:
                    c = 1 << c
                if m.group(1) == "and":
                    c = c + 1 if c & (c + 1) == 0 else c
                if lo <= c <= hi:
                    out.add(c)
    return out
