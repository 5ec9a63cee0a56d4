"""One function per property: what to build, what to run, how much."""
import glob
import os
import statistics

from check import *  # noqa

EXPL = "exploration"
COMMON = ["the compiler, libc and libm used by the monitors", "the monitored state is the public structure declared in include/structs.h"]


def T(quick, thorough):
    return thorough if THOROUGH else quick


def limit():
    return T(200, 6000)  # seconds of processor time of one process


def parallel(*thunks):
    with ThreadPoolExecutor(NPROC) as ex:
        return [f.result() for f in [ex.submit(t) for t in thunks]]


def cxx(src, quick, thorough, **kw):
    """harness/<src> against the library built as shipped (gcc -O3)"""
    def f(c):
        objs = c.lib("O3", GCC, ["-O3"])
        exe = c.exe(src[:-4], src, objs, **kw)
        c.sharded(exe, T(quick, thorough), timeout=limit())
        if THOROUGH:  # once more, built by the other compiler without optimisation
            objs = c.lib("clangO0", CLANG, ["-O0"])
            exe = c.exe(src[:-4] + "-clang", src, objs, **kw)
            c.sharded(exe, max(1, thorough // 5), timeout=limit())
    return f


session = lambda q, t: cxx("session.cpp", q, t)
props = lambda q, t: cxx("props.cpp", q, t)


# ---------------------------------------------------------------- C01
def c01(c):
    asan = ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    msan = ["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer"]
    hs = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    la, lm, lf = parallel(lambda: c.lib("asan", CLANG, asan), lambda: c.lib("msan", CLANG, msan), lambda: c.lib("fuzz", CLANG, asan + ["-fsanitize=fuzzer-no-link"]))
    ea, em, ef = parallel(lambda: c.exe("ops-asan", "ops.c", la, CLANG, hs, ["-lm"]), lambda: c.exe("ops-msan", "ops.c", lm, CLANG, msan, ["-lm"]),
                          lambda: c.exe("ops-fuzz", "ops.c", lf, CLANG, hs + ["-DFUZZ", "-fsanitize=fuzzer"], ["-lm"]))
    c.sharded(ea, T(12000, 400000), timeout=limit())
    c.sharded(em, T(12000, 400000), timeout=limit())
    # coverage guided
    runs = T(6000, 400000)
    tot = {"units": 0, "cov": 0, "ft": 0}

    def fuzz(i):
        d = os.path.join(c.dir, "fuzz%d" % i)
        os.makedirs(d)
        env = dict(SAN_ENV)
        env["ASAN_OPTIONS"] += ":handle_abort=1"
        cmd = [ef, "-runs=%d" % runs, "-seed=%d" % (SEED * 100 + i + 1), "-max_len=2000", "-timeout=60", "-detect_leaks=0", "-rss_limit_mb=6000", "-malloc_limit_mb=0", "-print_final_stats=1", "-artifact_prefix=" + d + "/", d]
        try:
            p = c.run(cmd, timeout=T(500, 6000), env=env, cwd=d, check=False)
        except subprocess.TimeoutExpired:
            c.notes.append("fuzzing cut short")
            return
        err = p.stderr.decode(errors="replace")
        if p.returncode:
            art = [f for f in os.listdir(d) if f.split("-")[0] in ("crash", "timeout", "oom", "leak")]
            data = open(os.path.join(d, art[0]), "rb").read().hex() if art else ""
            c.violation("fuzz:" + (san_report(err) or "exit %d" % p.returncode), err[-3000:], {"cmd": cmd, "input_hex": data})
            return
        m = re.findall(r"cov: (\d+) ft: (\d+)", err)
        u = re.search(r"number_of_executed_units:\s*(\d+)", err)
        tot["units"] += int(u.group(1)) if u else 0
        if m:
            tot["cov"], tot["ft"] = max(tot["cov"], int(m[-1][0])), max(tot["ft"], int(m[-1][1]))

    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(fuzz, range(NPROC)))
    c.count("coverage guided histories", tot["units"])
    c.count("coverage guided: edges covered", tot["cov"])
    c.count("coverage guided: features covered", tot["ft"])
    c.evaluations += tot["units"]
    if THOROUGH and os.path.exists("/usr/bin/valgrind"):
        objs = c.lib("O3", GCC, ["-O3"])
        exe = c.exe("ops", "ops.c", objs, GCC, ["-O1"], ["-lm"])
        c.sharded(exe, 1600, timeout=limit(), prefix=["/usr/bin/valgrind", "-q", "--error-exitcode=99", "--track-origins=yes"])


# ---------------------------------------------------------------- C07
def c07(c):
    objs = c.lib("O3", GCC, ["-O3"])
    a, b = parallel(lambda: c.exe("session", "session.cpp", objs), lambda: c.exe("props", "props.cpp", objs))
    c.sharded(a, T(2500, 60000), timeout=limit())
    c.sharded(b, T(4000, 100000), timeout=limit())


# ---------------------------------------------------------------- C12
RANK_BASE = {".5": (0, 0, 0), ".8": (.3, .16, .13), ".9": (.49, .3, .22), ".95": (.7, .43, .3), ".98": (.8, .67, .42), ".99": (.8, .7, .5)}


def c12(c):
    props(2500, 60000)(c)
    for g, v in sorted(c.agg.items()):
        side, rest = g.split(".", 1)
        lvl, n = rest.rsplit(".", 1)
        lvl = lvl if lvl.startswith(".") else "." + lvl.split(".")[-1]
        k = 0 if int(n) < 600 else 1 if int(n) < 2500 else 2
        base = RANK_BASE.get(lvl, (.8, .7, .5))[k]
        if len(v) < 100:
            continue
        m, sd = statistics.fmean(v), statistics.pstdev(v)
        c.evaluations += 1
        c.extra.setdefault("rank_of_excess_threshold", {})[g] = [round(m, 3), round(sd, 3), len(v)]
        if not (-.35 <= m <= base + .35):
            c.violation("rank-bias:" + side, "%s: over %d trainings in random order the mean error of the rank of the excess threshold is %.3f standard errors of a sample quantile (expected %.2f to %.2f)" % (g, len(v), m, -.35, base + .35), {"group": g})
        if sd > 1.3:
            c.violation("rank-spread:" + side, "%s: the rank of the excess threshold spreads with a deviation of %.3f standard errors of a sample quantile" % (g, sd), {"group": g})


# ---------------------------------------------------------------- C14-C16
def maths(quick, thorough, san=False):
    def f(c):
        ver = ['-DEXPECT_VERSION="%s"' % c.version()]
        objs = c.lib("O3", GCC, ["-O3"])
        exe = c.exe("maths", "maths.cpp", objs, flags=["-O2"] + ver)
        c.sharded(exe, T(quick, thorough), timeout=limit())
        if san:
            fl = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
            objs = c.lib("asan", CLANG, fl)
            exe = c.exe("maths-asan", "maths.cpp", objs, CLANGXX, fl + ver)
            c.sharded(exe, T(quick, thorough), timeout=limit())
        if THOROUGH:
            objs = c.lib("clangO0", CLANG, ["-O0"])
            exe = c.exe("maths-clang", "maths.cpp", objs, flags=["-O2"] + ver)
            c.sharded(exe, max(1, thorough // 5), timeout=limit())
    return f


def c15(c):
    maths(1000000, 30000000)(c)
    a, b = c.counts.get("evaluations of smooth searches", 0), c.counts.get("evaluations bisection would need", 0)
    if c.counts.get("smooth searches", 0) > 1000 and a > .4 * b:
        c.violation("slow", "on smooth functions with a simple root %d searches need %d evaluations, %.0f %% of what bisection needs" % (c.counts["smooth searches"], a, 100 * a / b), {})


# ---------------------------------------------------------------- C17
def c17(c):
    ts = ["-O1", "-fsanitize=thread"]
    # the library itself is not optimised: an optimiser turns some static variables into local ones
    lo, lt = parallel(lambda: c.lib("O3", GCC, ["-O3"]), lambda: c.lib("tsan", CLANG, ["-O0", "-fsanitize=thread"]))
    eo, et = parallel(lambda: c.exe("threads", "threads.cpp", lo, libs=["-lpthread"]), lambda: c.exe("threads-tsan", "threads.cpp", lt, CLANGXX, ts, ["-lpthread"]))
    n = T(240, 3000)
    args = [c.prop, str(SEED), str(n), "0", "1", TIER]
    digs = []
    for k, (exe, mode, env) in enumerate([(eo, [], {}), (et, [], {}), (eo, ["digest"], {"MALLOC_PERTURB_": "165"}), (eo, ["digest"], {"MALLOC_PERTURB_": "90", "MALLOC_ARENA_TEST": "1", "SOME_VARIABLE": "x" * 3333})]):
        out = c.monitor([exe] + args + mode, env, limit())
        if out is None:
            return
        if exe == eo:
            digs.append([l for l in out.splitlines() if l.startswith("H\t")])
    if not digs[0]:
        raise NoVerdict("no digest recorded")
    for d in digs[1:]:
        c.evaluations += len(d)
        c.count("sessions compared across processes", len(d))
        if d != digs[0]:
            bad = [i for i, (a, b) in enumerate(zip(digs[0], d)) if a != b]
            c.violation("processes", "the same sessions give other results in another process (sessions %s...)" % bad[:5], {"cmd": [eo] + args + ["digest"]})


# ---------------------------------------------------------------- C18, C19
def header(c):
    """dist/spot.h as the Makefile generates it"""
    d = os.path.join(c.dir, "dist")
    os.makedirs(d, exist_ok=True)
    h = os.path.join(d, "spot.h")
    p = c.run(["/usr/bin/make", "-s", "-C", REPO, "DIST_DIR=" + d, h], check=False)
    if p.returncode or not os.path.exists(h) or os.path.getsize(h) < 1000:
        with open(h, "w") as f:
            f.write('#include "%s/include/spot.h"\n' % REPO)
    return d


PY = "/opt/vp/venv/bin/python"


def pyext(c, name, flags):
    d = os.path.join(c.dir, name)
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, "python"), os.path.join(c.dir, "python"), dirs_exist_ok=True, ignore=shutil.ignore_patterns("*.so", "build", "__pycache__", "*.egg-info", "dist"))
    header(c)
    inc = "/usr/include/python3.12"
    if not os.path.exists(inc):
        inc = sorted(glob.glob("/usr/include/python3*"))[0]
    ver = '-DVERSION="%s"' % c.version()
    c.run([GCC, "-shared", "-fPIC", "-std=c99", "-g", "-w", "-DPy_LIMITED_API=0x03060000", ver, "-I" + inc, "-I" + REPO + "/include", "-Idist"] + flags + ["python/libspotmodule.c"] + c.sources() + ["-o", d + "/libspot.abi3.so"])
    c.run([GCC, "-shared", "-fPIC", "-std=gnu11", "-O2", "-w", "-fvisibility=hidden", ver, "-I" + REPO + "/include", HARNESS + "/pyref.c"] + c.sources() + ["-Wl,-Bsymbolic", "-o", d + "/libref.so"])
    return d


def pyrun(c, d, cases, env, args=(), timeout=None):
    e = {"EXPECT_VERSION": c.version(), "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
    e.update(env)
    cmds = [[PY, "-X", "faulthandler", HARNESS + "/pycheck.py", c.prop, str(SEED), str(cases), str(i), str(NPROC), TIER] + list(args) for i in range(NPROC)]
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda k: c.monitor(k, e, timeout or limit(), cwd=d), cmds))


def c18(c):
    pyrun(c, pyext(c, "plain", ["-O2"]), T(700, 20000), {})


def c19(c):
    pyrun(c, pyext(c, "plain", ["-O2"]), T(2400, 60000), {"PYTHONMALLOC": "malloc"}, ["leak"])
    asan = c.run([GCC, "-print-file-name=libasan.so"]).stdout.decode().strip()
    if os.path.isabs(asan) and os.path.exists(asan):
        d = pyext(c, "asan", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
        pyrun(c, d, T(1200, 20000), {"PYTHONMALLOC": "malloc", "LD_PRELOAD": asan, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1"})
    else:
        raise NoVerdict("libasan is not available")


# ---------------------------------------------------------------- C20
NODE = "/usr/bin/node"
ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"


def c20(c):
    header(c)
    w = os.path.join(HARNESS, "wasm")
    js = os.path.join(c.dir, "js")
    os.makedirs(js)
    for f in ("heap.mjs", "wcheck.mjs"):
        shutil.copy(os.path.join(w, f), js)
    shutil.copy(os.path.join(w, "core.mjs"), os.path.join(js, "libspot.core.js"))
    with open(os.path.join(js, "package.json"), "w") as f:
        f.write('{"type": "module"}')
    src = os.path.join(REPO, "wasm")
    os.makedirs(os.path.join(c.dir, "wasm"))
    for f in os.listdir(src):
        if f.endswith((".c", ".h")):
            shutil.copy(os.path.join(src, f), os.path.join(c.dir, "wasm"))
    base = [CLANG, "--target=wasm32", "-O2", "-std=gnu11", "-w", "-ffreestanding", "-fno-builtin", "-nostdlib", "-isystem", w + "/stub", '-DVERSION="%s"' % c.version(), "-I" + REPO + "/include",
            "-Wl,--no-entry", "-Wl,--export-all", "-Wl,--allow-undefined"]
    main = [os.path.join(c.dir, "wasm", f) for f in os.listdir(os.path.join(c.dir, "wasm")) if f.endswith(".c")]
    parallel(lambda: c.run(base + main + c.sources() + [w + "/rt.c", "-o", js + "/lib.wasm"]),
             lambda: c.run(base + [HARNESS + "/pyref.c"] + c.sources() + [w + "/rt.c", "-o", js + "/ref.wasm"]))
    if os.path.exists(ESBUILD):
        for f in os.listdir(src):
            if f.endswith(".ts") and ".test." not in f and not f.endswith(".d.ts"):
                c.run([ESBUILD, os.path.join(src, f), "--format=esm", "--target=esnext", "--outfile=" + os.path.join(js, f[:-3] + ".js")])
        index = os.path.join(js, "index.js")
        # a sibling imported with its .ts name
        for f in glob.glob(js + "/*.js"):
            t = open(f).read()
            if "libspot.core" not in f:
                open(f, "w").write(re.sub(r'(from\s*"\./[\w.-]+)\.ts"', r'\1.js"', t))
    else:
        shutil.copy(os.path.join(src, "index.ts"), js)
        index = os.path.join(js, "index.ts")
    env = {"WASM_LIB": js + "/lib.wasm", "WASM_REF": js + "/ref.wasm", "JS_INDEX": index, "EXPECT_VERSION": c.version(), "NODE_OPTIONS": ""}
    n = T(1600, 40000)
    cmds = [[NODE, "--no-warnings", "--expose-gc", js + "/wcheck.mjs", c.prop, str(SEED), str(n), str(i), str(NPROC), TIER] for i in range(NPROC)]
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda k: c.monitor(k, env, limit(), cwd=js), cmds))


# ---------------------------------------------------------------- C21
def c21(c):
    ver = '-DVERSION="%s"' % c.version()
    bare = ["-ffreestanding", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fno-asynchronous-unwind-tables", "-fno-builtin"]
    flavours = [("gcc-O3", GCC, ["-O3"]), ("clang-O2", CLANG, ["-O2"]), ("gcc-Os", GCC, ["-Os"])]
    if THOROUGH:
        flavours += [("clang-O0", CLANG, ["-O0"]), ("gcc-O1", GCC, ["-O1"])]
    seeds = [SEED * 10 + i for i in range(T(2, 24))]

    def one(fl):
        name, cc, opt = fl
        d = os.path.join(c.dir, name)
        os.makedirs(d)

        def comp(src):
            o = os.path.join(d, os.path.basename(src) + ".o")
            c.run([cc, "-std=gnu11", "-w", "-g", ver, "-I" + REPO + "/include", "-c", src, "-o", o] + bare + opt)
            return o
        objs = [comp(s) for s in c.sources()]
        for s in seeds:
            h = {}
            for kind, extra in (("bare", []), ("hosted", ["-DHOSTED"])):
                exe = os.path.join(d, "%s-%d" % (kind, s))
                fl2 = bare + ["-nostdlib", "-static"] if kind == "bare" else []
                cmd = [cc, "-std=gnu11", "-w", "-g", ver, "-DCASES=300", "-DSEED=%d" % s, "-I" + REPO + "/include"] + extra + opt + fl2 + [HARNESS + "/bare.c"]
                p = c.run(cmd + objs + ["-o", exe], check=False)
                if p.returncode:
                    und = sorted(set(re.findall(r"undefined (?:reference to|symbol:?) [`']?(\w+)", p.stderr.decode(errors="replace"))))
                    if kind == "bare" and und:
                        c.violation("external-symbol:" + ",".join(und), "%s: the library needs %s, which is neither its own nor a memory block primitive" % (name, ", ".join(und)), {"cmd": cmd})
                        return
                    raise NoVerdict(p.stderr.decode(errors="replace")[-2000:])
                if kind == "bare":
                    out = c.monitor([exe], timeout=limit())
                    if out is None:
                        return
                else:
                    out = c.run([exe], timeout=limit()).stdout.decode()
                h[kind] = [l for l in out.splitlines() if l.startswith("H\t")]
            c.evaluations += 1
            c.count("bare runs compared with hosted runs")
            if h["bare"] != h["hosted"]:
                c.violation("bare-differs", "%s: without a C runtime the results differ from those with one (seed %d)" % (name, s), {"flavour": name})
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, flavours))


# ---------------------------------------------------------------- C25
def c25(c):
    objs = c.lib("metered", CLANG, ["-O1", "-fsanitize-coverage=trace-pc-guard"])
    exe = c.exe("work", "work.cpp", objs)
    c.sharded(exe, T(600, 12000), timeout=limit())


# ---------------------------------------------------------------- C22
def c22(c):
    cxx("stats.cpp", 7200, 72000)(c)
    pool = c.agg
    table = c.extra.setdefault("estimates", {})

    def band(g, what, x, lo, hi):
        c.evaluations += 1
        if not (lo <= x <= hi):
            c.violation("%s:%s" % (what, g), "%s: %s is %.4g over %d runs, expected %.3g to %.3g" % (g, what, x, len(pool[g]), lo, hi), {"group": g})

    DIST = {"bounded": 0, "gauss": 0, "expo": 0, "pareto": 1, "student": 2}
    for g, v in sorted(pool.items()):
        if len(v) < 30:
            continue
        f = g.split(".")
        kind, dist, wide, cap = f[0], f[1], f[3] == "wide", f[-1]
        v = sorted(v)
        med, mean = statistics.median(v), statistics.fmean(v)
        iqr = v[3 * len(v) // 4] - v[len(v) // 4]
        table[g] = [round(med, 3), round(mean, 3), round(iqr, 3), len(v)]
        k = DIST.get(dist)
        if kind == "fit":
            if k is not None:
                lim = (.13, .17, .17)[k] if not wide else (.17, .23, .27)[k] if cap != "60" else (.27, .32, .42)[k]
                if dist == "bounded":
                    lim = .1 if cap != "60" else .16
                band(g, "median error of the threshold", med, -lim, lim)
                band(g, "interquartile range of the threshold", iqr, 0, .6 if not wide else .8 if cap != "60" else 1.4)
            else:
                band(g, "median error of the threshold", med, -.2, 2.6 if wide else .8)  # two modes: exponential candidate or bounded tail
        elif kind == "thr":
            lim = .2 if dist == "unif" else .06
            band(g, "median error of the excess threshold", med, -lim, lim)
        elif kind == "end":
            what = "median error of the threshold after the stream"
            if k is None:
                band(g, what, med, -.7, 2.8 if wide else .8)
            elif f[4] == "keep":
                lim = (.13, .19, .19)[k] if not wide else (.19, .24, .29)[k] if cap != "60" else (.33, .42, .42)[k]
                if dist == "bounded":
                    lim = .1 if cap != "60" else .18
                band(g, what, med, -lim, lim)
            else:
                lo, hi = (-.42, .02) if not wide and cap != "60" else (-.8, .02) if not wide else (-.5, .1) if cap != "60" else (-.8, .15)
                band(g, what, med, lo, hi)
        elif kind == "rate":
            what = "ratio of observed alarms to q"
            if k is None:
                band(g, what, mean, .1, 8)
            elif f[4] == "keep":
                lo, hi = ((.75, 1.45) if cap == "large" else (.75, 1.8)) if not wide else ((.6, 3) if cap == "large" else (1, 12))
                band(g, what, mean, lo, hi)
            else:
                lo, hi = ((.9, 2.2) if cap == "large" else (1.2, 5)) if not wide else ((.6, 6) if cap == "large" else (2, 40))
                band(g, what, mean, lo, hi)
        elif kind == "exc":
            band(g, "ratio of excesses to 1-level", mean, .85, 1.13)
        elif kind == "out":
            band(g, "proportion of outliers flagged", mean, .985, 1)


SESSION_RULE = ("A case is a monitored session: random valid parameters, training data from a catalogue of 20 sources, up to three fits, "
                "then a stream mixing source values with values placed at, next to and around the two thresholds, NaN, infinities and queries; "
                "the state is recorded before and after every call. An evaluation is one monitored call. Non-trivial: ")
CHECKS = {
    "C01": (c01, EXPL, "A case is a history of public and internal calls decoded from random or coverage-guided bytes (hostile doubles, sizes and parameters), run under AddressSanitizer+UndefinedBehaviorSanitizer and MemorySanitizer; an evaluation is a call (or a coverage-guided history). Non-trivial: the history stepped a detector more than three times; distinct by digest of all results.", COMMON + ["the sanitizers detect the errors they document"], 20000),
    "C02": (props(4000, 100000), EXPL, "A case is a history of init/fit/step/query/free calls on several detectors with a logging, canary-guarded and fault-injecting allocator; an evaluation is a checked call. Non-trivial: at least one block was obtained; distinct by digest.", COMMON, 5000),
    "C03": (props(60000, 1500000), EXPL, "A case is a set of initialisations with levels, q and sizes around every boundary, on structures holding garbage, with and without failing allocator; distinct by digest of parameters and outcome.", COMMON, 5000),
    "C04": (session(2000, 60000), EXPL, SESSION_RULE + "the window overflowed at least once; distinct by digest of the session's outputs.", COMMON, 10000),
    "C05": (session(2500, 60000), EXPL, SESSION_RULE + "an extreme value was evicted; plus direct push sequences.", COMMON, 10000),
    "C06": (session(4000, 100000), EXPL, SESSION_RULE + "both NORMAL and EXCESS verdicts occurred.", COMMON, 10000),
    "C07": (c07, EXPL, SESSION_RULE + "anomalies, NaNs or queries occurred; plus twin streams, one with and one without them.", COMMON, 10000),
    "C08": (session(4000, 100000), EXPL, SESSION_RULE + "both NORMAL and EXCESS verdicts occurred.", COMMON, 10000),
    "C09": (session(4000, 100000), EXPL, SESSION_RULE + "more than three thresholds were recomputed.", COMMON, 10000),
    "C10": (session(2500, 60000), EXPL, SESSION_RULE + "at least one non degenerate window was fitted; plus direct tail fits.", COMMON, 5000),
    "C11": (props(3000, 100000), EXPL, "A case is a fitted detector (or one with chosen tail parameters) queried on grids of probabilities and values; an evaluation is a checked query. Non-trivial and distinct: digest of the tail parameters.", COMMON, 5000),
    "C12": (c12, EXPL, "A case is a training set (random, tied, tiny, hostile, constant or of known distribution) and the outcome of its fit; ranks are aggregated over many trainings in random order. Distinct by digest.", COMMON, 3000),
    "C13": (props(3000, 100000), EXPL, "A case gives a detector a random past (fits, failed fits, streams, queries), fits it again and compares with a new detector, then streams both in lock step. Distinct by digest.", COMMON, 3000),
    "C14": (maths(1024, 60000), EXPL, "A case is a block of arguments (all binades, neighbours of powers of two, subnormals, extremes, random bit patterns) compared with long double references. Distinct by block digest.", COMMON + ["the C library's long double functions as reference"], 50000),
    "C15": (c15, EXPL, "A case is a continuous function (polynomial, exponential, steep, flat, discontinuous derivative ...), an interval and a tolerance; every evaluation point is recorded. Distinct by function, interval and outcome.", COMMON, 50000),
    "C16": (maths(400, 10000, san=True), EXPL, "A case is a string function, a code and a buffer size, with canaries around the buffer, also under AddressSanitizer. Distinct by function, code and size.", COMMON, 1000),
    "C17": (c17, EXPL, "A case is a session run alone, repeated, interleaved with others, in concurrent threads (also under ThreadSanitizer) and in other processes; an evaluation is a comparison of digests. Distinct: the interleavings observed.", COMMON + ["ThreadSanitizer detects the races it documents"], 1000),
    "C18": (c18, EXPL, "A case drives libspot.Spot and the C functions in lock step; an evaluation is a compared result. Distinct by digest of the results.", COMMON + ["CPython 3.12"], 5000),
    "C19": (c19, EXPL, "A case is a series of hostile calls on a Python detector (wrong types, failing sequences, failing allocations, subclassing ...) whose state is compared before and after; leak loops count blocks; also under AddressSanitizer.", COMMON + ["CPython 3.12"], 3000),
    "C20": (c20, EXPL, "A case drives JavaScript Spot objects in lock step with the C functions of a second WebAssembly instance on a heap with red zones, injected allocation failures, growth and garbage collection; an evaluation is a checked call. Distinct by digest of results.", COMMON + ["clang's wasm32 code generation and a stand-in for emscripten's loader", "Node's FinalizationRegistry"], 5000),
    "C21": (c21, EXPL, "The library is linked without any C library and run from its own entry point; its results are compared with a hosted run. Distinct: running digests of the results after each case.", ["Linux system calls write and exit", "the compiler"], 5000),
    "C22": (c22, EXPL, "A case is one training and one stationary stream of a known distribution; estimates are aggregated per distribution, mode and setting. Distinct by final threshold.", COMMON, 100000),
    "C23": (props(2500, 60000), EXPL, "A case drives an upper and a lower detector with opposite values in lock step. Distinct by digest.", COMMON, 5000),
    "C24": (props(2500, 60000), EXPL, "A case drives two detectors in lock step, one with values multiplied by a power of two. Distinct by digest.", COMMON, 5000),
    "C25": (c25, EXPL, "A case is a history whose calls are metered: the library is built with one counter per basic block executed. An evaluation is a metered call. Distinct by digest of the costs.", COMMON + ["the number of basic blocks executed measures the work"], 5000),
    "C26": (props(3000, 100000), EXPL, "A case drives two detectors with the same calls; one is moved in memory, passed by value, cloned, rolled back to checkpoints and resumed in another process, the other is left alone. Non-trivial: several excesses and several moves; distinct by digest.", COMMON, 5000),
    "C27": (props(6000, 150000), EXPL, "A case drives two detectors in lock step, one with values shifted by an exactly representable amount (thresholds moved next to zero, everything negative, everything positive ...). Distinct by digest.", COMMON, 5000),
    "C28": (props(4000, 100000), EXPL, "A case is a stream; at many points the tail of the detector is compared with that of a new tail that was given the same stored excesses in another order, after others that have left its window. Distinct by digest.", COMMON, 5000),
}
