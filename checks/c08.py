"""C08: operations are pure: no hidden mutable state, no entropy outside key generation and randomised signing."""
import re

import fw
import ir
import scen
import suite

SPEC = {
    "level": "other",
    "technique": "effect analysis: writes to globals, call-graph reachability of entropy and environment sources, and event traces of every abstract path",
    "note": "Every function of the library in four build configurations (OpenSSL and self-contained, 64 and 32 bit hash); call graph includes address-taken functions.",
    "explain": "(1) No library function writes a global or function-static object: the linked IR is searched for mutable objects and writers, and the interpreter reports each write to a global. (2) From verify, validate, sign_with_randomness, clear and the size/name queries no source of entropy, time, environment or other outside state is reachable in the call graph. (3) On every abstract path of every operation, randomness is drawn only by keygen and sign.",
    "rule": "no write to a static-duration object; entropy sources reachable only from keygen and sign (and wrappers); no rdtsc/rdrand/inline assembly with effects; no draw event on deterministic operations",
    "assumptions": ["OpenSSL's cipher calls are functions of their inputs"],
}
ENTROPY = re.compile(r"^(getrandom|getentropy|arc4random\w*|rand|rand_r|random\w*|drand48|lrand48|mrand48|srand\w*|RAND_\w+|OQS_randombytes|SecRandomCopyBytes|BCryptGenRandom|rand_bytes|llvm\.x86\.rd(rand|seed)\.\d+)$")
OUTSIDE = re.compile(r"^(time|clock|clock_gettime|gettimeofday|getpid|gettid|getppid|getenv|secure_getenv|times|getrusage|pthread_self|open\w*|read|fopen\w*|fread|syscall|getauxval|sched_getcpu|llvm\.readcyclecounter|llvm\.x86\.rdtsc\w*|llvm\.returnaddress|llvm\.frameaddress)")
KNOWN = re.compile(r"^(llvm\..*|mem(cpy|move|set|cmp)|bcmp|bzero|explicit_bzero|malloc|calloc|realloc|free|aligned_alloc|posix_memalign|memalign|EVP_\w+|__assert_fail|getrandom|abort|__errno_location)$")


def run(ctx):
    sets = scen.sets(ctx.tree)
    cfgs = {"ossl-w": ctx.bc("ossl-w", wrappers=True), "port-w": ctx.bc("port-w", openssl=False, ndebug=True, wrappers=True),
            "plain32": ctx.bc("plain32", sha3="plain32"), "noconf": ctx.bc("noconf", confh=["HAVE_GETRANDOM", "HAVE_SYS_RANDOM_H"], openssl=False)}
    for cn, bc in cfgs.items():
        g = ir.IR(bc)
        ctx.functions.update(g.body)
        mut = g.mutable()
        ctx.ok("global objects examined", len(g.globals))
        for n in sorted(mut):
            w = sorted(g.writers(n))
            ctx.require(not w, "mutable object not written", "static|" + re.sub(r"\.\d+$", "", n), "%s: object %s keeps state between calls: written by %s" % (cn, n, ", ".join(w[:4])))
            if not w:
                ctx.undec("mutable " + n, "%s: non-constant global without a visible writer" % cn)
        for f, lines in g.body.items():
            for ln in lines:
                m = re.search(r"\basm\b (sideeffect )?.*?\"([^\"]*)\"", ln)
                if m:
                    ctx.require(not re.search(r"rdtsc|rdrand|rdseed|rdpmc|cpuid|syscall", m.group(2)), "inline assembly without outside state", "asm|" + f, "%s: inline assembly in %s reads outside state: %s" % (cn, f, m.group(2)))
        roots = []
        for s in sets:
            for op in ("verify", "validate_keypair", "sign_with_randomness", "clear_private_key"):
                roots.append((s.fn(op), True))
            for op in ("keygen", "sign"):
                roots.append((s.fn(op), False))
            if cn.endswith("-w"):
                roots += [("crypto_sign_open__" + s.name, True), ("crypto_sign__" + s.name, False), ("crypto_sign_keypair__" + s.name, False)]
        roots += [("faest_get_paramset", True), ("faest_get_param_name", True)]
        for r, det in roots:
            if r not in g.body:
                if r.endswith("param_name"):
                    continue
                raise fw.AnalysisError("public function %s not found in the library" % r)
            pred = g.reach(r)
            for f in sorted(pred):
                if det:
                    ctx.require(not ((f in g.decls or f == "rand_bytes") and ENTROPY.match(f)), "deterministic operation reaches no entropy", "entropy|%s|%s" % (op_of(r), f), "%s: %s reaches the random source: %s" % (cn, r, g.path(pred, f)))
                ctx.require(not (f in g.decls and OUTSIDE.match(f)), "no outside state reachable", "outside|%s" % f, "%s: %s reads state outside its arguments: %s" % (cn, r, g.path(pred, f)))
                if f in g.decls and not KNOWN.match(f) and not ENTROPY.match(f) and not OUTSIDE.match(f):
                    ctx.undec("external " + f, "external function with unknown effects, reached by %s" % g.path(pred, f))
            ctx.ok("reachable functions examined", len(pred))
    J, M = {}, {}
    for s in sets:
        for k, (q, meta) in suite.api(s).items():
            if meta["good"]:
                J[(s.name, k)], M[(s.name, k)] = q, meta["op"]
        if ctx.thorough or s.name in ("128f", "em_128f", "192f", "em_256f", "256f", "em_192f"):
            for k, q in suite.heavy(s).items():
                J[(s.name, "whole " + k)], M[(s.name, "whole " + k)] = q, "verify"
        for k, q in suite.wrappers(s).items():
            J[(s.name, "crypto " + k)], M[(s.name, "crypto " + k)] = q, None
    res = ctx.run(cfgs["ossl-w"], J)
    for k, d in res.items():
        what = "%s (%s)" % (d["entry"], k[1])
        for w in d["globalsWritten"]:
            ctx.violation("written|" + str(w), "%s writes the static object %s" % (what, w))
        ctx.ok("operations without a write to static objects")
        if M[k] in ("verify", "validate_keypair", "sign_with_randomness", "clear_private_key"):
            n = sum(d["stats"].get(c, 0) for c in ("c_getrandom", "c_rngcalls"))
            ctx.require(n == 0, "no draw", "draw|" + op_of(d["entry"]), "%s draws system randomness" % what)
        for o in d["outcomes"]:
            ev = [e for e in o["events"] if e["ev"] in ("getrandom", "arc4random", "read", "rand_bytes")]
            if M[k] == "sign":
                ctx.require(len(ev) <= 1 or all("sign" != e["ev"] for e in o["events"][: o["events"].index(ev[0])]), "draw precedes signing", "order|sign", "%s draws randomness after signing started" % what)


def op_of(f):
    return re.sub(r"^faest_(em_)?\d+[sf]_", "", re.sub(r"__.*", "", f))
