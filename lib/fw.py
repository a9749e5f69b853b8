"""Framework shared by all checks: builds LLVM IR from /repo's current working tree and runs the abstract interpreter."""
import concurrent.futures as cf
import contextlib
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FAEST_REPO", "/repo")
ABSINT = os.path.join(VERIF, "build", "absint")
JOBS = 8
TIER = os.environ.get("VERIF_TIER", "quick")

PARAMS = ["128s", "128f", "192s", "192f", "256s", "256f", "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f"]


class AnalysisError(Exception):
    """The analysis could not be carried out (anchor vanished, compile error, tool failure)."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    return r.stdout


@contextlib.contextmanager
def workdir():
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(prefix="w", dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def meson_params(repo=None):
    """param_<set>.set('KEY', value) entries of meson.build (what configure_file substitutes)."""
    repo = repo or REPO
    txt = open(os.path.join(repo, "meson.build")).read()
    out = {}
    for m in re.finditer(r"param_(\w+)\.set\(\s*'(\w+)'\s*,\s*('([^']*)'|[-\d]+)\s*\)", txt):
        out.setdefault(m.group(1), {})[m.group(2)] = m.group(4) if m.group(4) is not None else m.group(3)
    res = {}
    for v in out.values():
        if "PARAM_L" in v:
            res[v["PARAM_L"]] = v
    if sorted(res) != sorted(PARAMS):
        raise AnalysisError("meson.build does not define the twelve parameter sets")
    return res


def subst(src, dst, conf):
    t = open(src).read()
    t = re.sub(r"@(\w+)@", lambda m: str(conf[m.group(1)]) if m.group(1) in conf else m.group(0), t)
    with open(dst, "w") as f:
        f.write(t)


CONFIG_H = ["HAVE_ALIGNED_ALLOC", "HAVE_ARC4RANDOM_BUF", "HAVE_EXPLICIT_BZERO", "HAVE_GETRANDOM", "HAVE_MEMALIGN",
            "HAVE_POSIX_MEMALIGN", "HAVE_PTHREAD_SETAFFINITY_NP", "HAVE_SYS_RANDOM_H"]


class Tree:
    """Generated sources plus compiled bitcode for one snapshot of the repository."""

    def __init__(self, work, repo=None):
        self.work, self.repo = work, repo or REPO
        self.params = meson_params(self.repo)
        self.gen = os.path.join(work, "gen")
        os.makedirs(self.gen, exist_ok=True)
        with open(os.path.join(self.gen, "parameters.h"), "w") as f:
            f.write("#pragma once\n")
            for p, v in self.params.items():
                for k, x in v.items():
                    if re.match(r"^-?\d+$", str(x)):
                        f.write("#define FAEST_%s_%s %s\n" % (v["PARAM"], k, x))
        self._config_h(self.gen, CONFIG_H)
        for p, v in self.params.items():
            subst(os.path.join(self.repo, "faest_param.h.in"), os.path.join(self.gen, "faest_%s.h" % p), v)
            subst(os.path.join(self.repo, "faest_param.c.in"), os.path.join(self.gen, "faest_%s.c" % p), v)
        self.cache = {}

    def _config_h(self, d, names):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "config.h"), "w") as f:
            f.write("#pragma once\n" + "".join("#define %s\n" % n for n in names))

    def core_sources(self):
        """Library sources listed in meson.build (files directly in the project root)."""
        txt = open(os.path.join(self.repo, "meson.build")).read()
        m = re.search(r"faest_sources\s*=\s*files\((.*?)\)", txt, re.S)
        names = re.findall(r"'([^']+\.c)'", m.group(1)) if m else []
        if not names:
            raise AnalysisError("meson.build: source list not found")
        return names

    def compile(self, src, cfgname, defs, incs, out):
        cmd = ["clang", "-std=c11", "-O1", "-Xclang", "-disable-llvm-passes", "-mavx2", "-g", "-gno-column-info", "-emit-llvm", "-c", "-w",
               "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-DFAEST_EXPORT=", "-DFAEST_STATIC"] + defs + ["-I" + i for i in incs] + [src, "-o", out]
        sh(cmd)
        return out

    def build(self, name, openssl=True, sha3="opt64", ndebug=False, confh=None, extra=(), only=None, sets=None, wrappers=False, tests=False, passes="sroa,jump-threading"):
        """Returns the path of the linked bitcode of a configuration."""
        if name in self.cache:
            return self.cache[name]
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        incs = []
        if confh is not None:
            self._config_h(os.path.join(d, "conf"), confh)
            incs.append(os.path.join(d, "conf"))
        incs += [self.gen, self.repo, os.path.join(self.repo, "sha3"), os.path.join(self.repo, "sha3", sha3)]
        defs = list(extra) + ["-DWITH_KECCAK_X4"]
        if openssl:
            defs.append("-DHAVE_OPENSSL")
        if ndebug:
            defs.append("-DNDEBUG")
        if tests:
            defs.append("-DFAEST_TESTS")
        srcs = []
        if only is not None:
            srcs = [os.path.join(self.repo, s) for s in only]
        else:
            srcs = [os.path.join(self.repo, s) for s in self.core_sources() + ["randomness.c"]]
            srcs += [os.path.join(self.repo, "sha3", s) for s in ("KeccakHash.c", "KeccakHashtimes4.c", "KeccakSponge.c", "KeccakSpongetimes4.c")]
            perm = {"opt64": ["KeccakP-1600-opt64.c", "KeccakP-1600-times4-on1.c"], "plain32": ["KeccakP-1600-inplace32BI.c", "KeccakP-1600-times4-on1.c"]}[sha3]
            srcs += [os.path.join(self.repo, "sha3", sha3, s) for s in perm]
            for p in (sets or PARAMS):
                srcs.append(os.path.join(self.gen, "faest_%s.c" % p))
        jobs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for i, s in enumerate(srcs):
                jobs.append(ex.submit(self.compile, s, name, defs, incs, os.path.join(d, "%d_%s.bc" % (i, os.path.basename(s)))))
            if wrappers:
                for p in (sets or PARAMS):
                    wd = os.path.join(d, "cs_" + p)
                    os.makedirs(wd, exist_ok=True)
                    subst(os.path.join(self.repo, "crypto_sign.h.in"), os.path.join(wd, "api.h"), self.params[p])
                    subst(os.path.join(self.repo, "crypto_sign.c.in"), os.path.join(wd, "crypto_sign.c"), self.params[p])
                    ren = ["-D%s=%s__%s" % (f, f, p) for f in ("crypto_sign_keypair", "crypto_sign", "crypto_sign_open")]
                    jobs.append(ex.submit(self.compile, os.path.join(wd, "crypto_sign.c"), name, defs + ren, [wd] + incs, os.path.join(d, "cs_%s.bc" % p)))
        outs = [j.result() for j in jobs]
        bc = os.path.join(d, "all.bc")
        sh(["llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"] + outs + ["-o", bc + ".l"])
        sh(["opt-18" if shutil.which("opt-18") else "opt", "-passes=" + passes, bc + ".l", "-o", bc])
        self.cache[name] = bc
        return bc


class ScenarioError(AnalysisError):
    """One abstract run exceeded its limits; the others are unaffected."""


T0 = time.time()
BUDGET = int(os.environ.get("VERIF_BUDGET", "800" if os.environ.get("VERIF_TIER", "quick") != "thorough" else "14400"))  # seconds for the whole check


def absint(bc, scen, timeout=280):
    timeout = int(min(timeout, T0 + BUDGET - time.time()))
    if timeout < 5:
        raise ScenarioError("the check's time budget is used up")
    fd, path = tempfile.mkstemp(suffix=".json", dir=os.path.dirname(bc))
    with os.fdopen(fd, "w") as f:
        json.dump(scen, f)
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 3800000; ulimit -s 1000000 2>/dev/null || ulimit -s unlimited 2>/dev/null; exec \"$0\" \"$@\"", ABSINT, bc, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ScenarioError("abstract run exceeded %d s" % timeout)
    finally:
        os.unlink(path)
    if r.returncode != 0:
        raise ScenarioError("abstract interpreter failed (%d): %s" % (r.returncode, (r.stderr[-1500:] + r.stdout[-500:]).decode(errors="replace")))
    return json.loads(r.stdout)


def parallel(jobs, n=JOBS):
    """jobs: list of (key, thunk); returns {key: result}; exceptions propagate."""
    with cf.ThreadPoolExecutor(n) as ex:
        futs = {k: ex.submit(f) for k, f in jobs}
        return {k: f.result() for k, f in futs.items()}
