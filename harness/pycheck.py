"""C18: libspot.Spot in lock step with the C detector.
C19: errors, leaks, hostile arguments.
args: PROP SEED CASES SHARD NSHARDS TIER MODE ; the module and the reference
library lie in the current folder."""
import ctypes
import gc
import hashlib
import json
import math
import os
import random
import struct
import sys
import time

sys.path.insert(0, os.getcwd())
PROP, SEED, CASES, SHARD, NSH, TIER = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
MODE = sys.argv[7] if len(sys.argv) > 7 else ""
import libspot  # noqa: E402
from libspot import Spot  # noqa: E402

try:
    import numpy as np
except ImportError:
    np = None
import array  # noqa: E402
from collections import deque  # noqa: E402
from decimal import Decimal  # noqa: E402
from fractions import Fraction  # noqa: E402

evals, counts, samples, distinct, seen = 0, {}, [], set(), set()
cur, mode = -1, ""
NAN, INF = float("nan"), float("inf")


def count(k, n=1):
    counts[k] = counts.get(k, 0) + n


def fail(key, detail):
    if key in seen or len(seen) > 20:
        return
    seen.add(key)
    print("V\t%s\t%s\t%s\t%d\t%s" % (PROP, key, mode, cur, detail.replace("\n", " ").replace("\t", " ")), flush=True)


def finish():
    print("J\t" + json.dumps({"evaluations": evals, "counts": counts, "samples": samples[:6]}))
    print("D\t" + "\t".join(distinct), flush=True)


def same(a, b):
    return a == b or (a != a and b != b)


KINDS = ["gauss", "expo", "unif", "ints", "few", "heavy", "sorted", "const"]


def draw(r, k):
    if k == "gauss":
        return r.gauss(0, 1)
    if k == "expo":
        return r.expovariate(1)
    if k == "unif":
        return r.random()
    if k == "ints":
        return float(int(10 * r.expovariate(1)))
    if k == "few":
        return float(r.randrange(4))
    if k == "heavy":
        return r.paretovariate(2)
    if k == "const":
        return 1.0 if r.random() < .95 else r.random()
    return r.gauss(5, 2)


def data(r, k, n):
    v = [draw(r, k) for _ in range(n)]
    if k == "sorted":
        v.sort()
    return v


def container(r, v):
    """the same numbers in some kind of sequence"""
    opts = ["list", "tuple", "array", "gen", "deque", "iter", "map", "custom", "dictkeys"] + (["np", "npstrided", "npobj", "np2"] if np is not None else [])
    c = r.choice(opts)
    if c == "tuple":
        return c, tuple(v)
    if c == "array":
        return c, array.array("d", v)
    if c == "gen":
        return c, (x for x in v)
    if c == "deque":
        return c, deque(v)
    if c == "iter":
        return c, iter(v)
    if c == "map":
        return c, map(float, v)
    if c == "custom":
        class Seq:
            def __len__(self):
                return len(v)

            def __getitem__(self, i):
                return v[i]
        return c, Seq()
    if c == "dictkeys":
        if len(set(v)) == len(v):
            return c, dict.fromkeys(v).keys()
        return "list", list(v)
    if c == "np":
        return c, np.array(v)
    if c == "npstrided":
        a = np.zeros(2 * len(v))
        a[::2] = v
        return c, a[::2]
    if c == "npobj":
        return c, np.array(v, dtype=object)
    if c == "np2":
        return c, np.array(v)[::-1][::-1]
    return "list", list(v)


# ------------------------------------------------------------------- C18 ---
class Ref:
    lib = None

    def __init__(self, q, low=0, dis=1, level=0.98, cap=500):
        if Ref.lib is None:
            L = ctypes.CDLL(os.path.join(os.getcwd(), "libref.so"))
            L.ref_new.restype = ctypes.c_void_p
            L.ref_new.argtypes = [ctypes.c_double, ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.c_ulong, ctypes.POINTER(ctypes.c_int)]
            L.ref_del.argtypes = [ctypes.c_void_p]
            L.ref_fit.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_double), ctypes.c_ulong]
            L.ref_step.argtypes = [ctypes.c_void_p, ctypes.c_double]
            for f in (L.ref_quantile, L.ref_probability):
                f.restype = ctypes.c_double
                f.argtypes = [ctypes.c_void_p, ctypes.c_double]
            L.ref_get.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_double)]
            L.ref_data.restype = ctypes.POINTER(ctypes.c_double)
            L.ref_data.argtypes = [ctypes.c_void_p]
            L.ref_sizeof.restype = ctypes.c_ulong
            L.ref_error.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_ulong]
            L.ref_poke.argtypes = [ctypes.c_void_p, ctypes.c_ulong, ctypes.c_ulong]
            L.ref_setup()
            Ref.lib = L
        rc = ctypes.c_int(0)
        self.p = Ref.lib.ref_new(q, low, dis, level, cap, ctypes.byref(rc))
        self.rc = rc.value

    def fit(self, v):
        a = (ctypes.c_double * max(1, len(v)))(*v)
        return Ref.lib.ref_fit(self.p, a, len(v))

    def step(self, x):
        return Ref.lib.ref_step(self.p, x)

    def state(self):
        return raw_state(self.p)

    def __del__(self):
        if getattr(self, "p", None):
            Ref.lib.ref_del(self.p)
            self.p = None


def raw_state(p):
    o = (ctypes.c_double * 19)()
    Ref.lib.ref_get(p, o)
    n = int(o[18])
    d = Ref.lib.ref_data(p)
    return list(o), [d[i] for i in range(n)]


def compare(s, ref, when):
    global evals
    evals += 1
    o, ex = ref.state()
    q, level, dis, low, t, z, n, nt, g, sg, e, e2, mn, mx, cursor, cap, filled, last, size = o
    for name, want in (("q", q), ("level", level), ("excess_threshold", t), ("anomaly_threshold", z), ("n", n), ("Nt", nt), ("gamma", g), ("sigma", sg)):
        got = getattr(s, name)
        if not same(got, want):
            return fail("attribute-" + name, "%s: attribute %s is %r, the C detector has %r" % (when, name, got, want))
        if type(got) is not (int if name in ("n", "Nt") else float):
            return fail("type", "%s: attribute %s is a %s" % (when, name, type(got).__name__))
    d = s.as_dict()
    for name, want in (("q", q), ("level", level), ("discard_anomalies", dis), ("low", low), ("excess_threshold", t), ("anomaly_threshold", z), ("n", n), ("Nt", nt)):
        if not same(d[name], want):
            return fail("dict-" + name, "%s: as_dict()[%r] is %r, the C detector has %r" % (when, name, d[name], want))
    T = d["tail"]
    P, C = T["peaks"], T["peaks"]["container"]
    for dd, name, want in ((T, "gamma", g), (T, "sigma", sg), (P, "e", e), (P, "e2", e2), (P, "min", mn), (P, "max", mx), (C, "cursor", cursor), (C, "capacity", cap), (C, "last_erased_data", last), (C, "filled", filled)):
        if not same(dd[name], want):
            return fail("dict-" + name, "%s: as_dict() has %s=%r, the C detector has %r" % (when, name, dd[name], want))
    lst = s.excesses()
    if len(lst) != len(ex) or any(not same(a, b) for a, b in zip(lst, ex)):
        return fail("excesses", "%s: excesses() gives %d values %s..., the C detector stores %d" % (when, len(lst), lst[:3], len(ex)))
    if any(type(a) is not float for a in lst) or any(type(a) is not float for a in C["data"]):
        return fail("excess-type", "%s: an excess is not a float" % when)
    if len(C["data"]) != len(ex) or any(not same(a, b) for a, b in zip(C["data"], ex)):
        return fail("dict-data", "%s: as_dict() excesses differ from the C detector" % when)
    raw = s.raw()
    if len(raw) != Ref.lib.ref_sizeof():
        return fail("raw-size", "raw() has %d bytes, the structure %d" % (len(raw), Ref.lib.ref_sizeof()))
    buf = (ctypes.c_char * len(raw)).from_buffer_copy(bytes(raw))
    ro, rex = raw_state(ctypes.addressof(buf))
    if any(not same(a, b) for a, b in zip(ro, o)) or any(not same(a, b) for a, b in zip(rex, ex)):
        return fail("raw", "%s: raw() %s differs from the C structure %s" % (when, ro, o))
    count("states compared")
    return True


def poke(s, ref, n, nt):
    """Install large counters in both detectors (the object holds the structure that raw() shows)"""
    raw = bytes(s.raw())
    at = ctypes.string_at(id(s), s.__sizeof__()).find(raw)
    if at < 0:
        return count("objects whose structure is elsewhere")
    Ref.lib.ref_poke(id(s) + at, n, nt)
    Ref.lib.ref_poke(ref.p, n, nt)
    count("detectors with counters beyond 2^16..2^50")


def c18_case(i):
    global cur, evals
    cur = i
    r = random.Random(SEED * 1000003 + i)
    level = r.choice([.5, .8, .9, .95, .98, .99, r.random() * .99, 0.0])
    q = (1 - level) * 10 ** -r.uniform(.1, 5)
    kw = {}
    par = {"low": 0, "dis": 1, "level": 0.98, "cap": 500}
    if r.random() < .7 or q >= .02:
        kw["level"] = par["level"] = level
    if r.random() < .6:
        kw["low"] = par["low"] = r.choice([0, 1, 1, 2, -1])
    if r.random() < .6:
        kw["discard_anomalies"] = par["dis"] = r.choice([0, 0, 1, 3])
    if r.random() < .7:
        kw["max_excess"] = par["cap"] = r.choice([1, 2, 3, 5, 10, 50, 100, 1000, 40000 if r.random() < .2 else 7])
    wide = i % 29 == 7
    if wide:
        kw["max_excess"] = par["cap"] = r.choice([5000, 20000, 40000, 70000])
        kw["level"] = par["level"] = r.choice([.5, .7, 0.0])
        q = (1 - par["level"]) * 10 ** -r.uniform(.1, 5)
    if r.random() < .3:
        kw = {"q": q, **kw}
        s = Spot(**kw)
    else:
        s = Spot(q, **kw)
    ref = Ref(q, par["low"], par["dis"], par["level"], par["cap"])
    count("detectors")
    if ref.rc:
        return fail("init", "the C detector refuses q=%r %r (%d), the class accepts" % (q, kw, ref.rc))
    compare(s, ref, "init %r" % kw)
    # parameters at and beyond the limits: accepted like the C function, refused with its message
    for _ in range(3):
        lv = r.choice([level, 0.0, 1.0, -.1, 1.1, NAN, .98, math.nextafter(1, 0), INF])
        qq = r.choice([q, 0.0, -1e-3, 1 - lv, math.nextafter(1 - lv, 0), math.nextafter(1 - lv, 2), 1.0, 2.0, NAN, INF, 1e-300])
        cap = r.choice([1, 5, 100, 0, 2 ** 61, 2 ** 62, 2 ** 63, 2 ** 64 - 1])
        o = Ref(qq, 0, 1, lv, cap)
        b = ctypes.create_string_buffer(256)
        Ref.lib.ref_error(-o.rc if o.rc else 0, b, 256)
        for what, f in (("Spot", Spot), ("__init__", Spot(.001).__init__)):
            evals += 1
            try:
                f(qq, level=lv, max_excess=cap)
                if o.rc:
                    fail("init-accepted", "%s(%r, level=%r, max_excess=%r) is accepted, the C function returns %d" % (what, qq, lv, cap, o.rc))
            except RuntimeError as e:
                if not o.rc:
                    fail("init-refused", "%s(%r, level=%r, max_excess=%r) is refused (%s), the C function accepts" % (what, qq, lv, cap, e))
                elif str(e) != b.value.decode():
                    fail("init-message", "%s(%r, level=%r, max_excess=%r) raises %r, expected %r" % (what, qq, lv, cap, str(e), b.value.decode()))
        count("parameters accepted" if not o.rc else "parameters refused with %d" % o.rc)
    k = r.choice(KINDS)
    h = hashlib.sha1()
    ana = 0
    for life in range(r.choice([1, 1, 2])):
        big = wide or r.random() < .04
        v = data(r, k, r.choice([40000, 66000, 90000]) if big else r.choice([5, 6, 20, 100, 400, 2000]) if r.random() < .93 else r.randrange(5))
        if r.random() < .1:
            v = [float(int(10 * x)) for x in v]
            if r.random() < .3:
                v = [x * 2.0 ** 70 for x in v]
            arg, cn = [int(x) for x in v], "list of int"
        else:
            if r.random() < .15 and v:  # any double is data
                if r.random() < .3:
                    f = 10.0 ** r.choice([-300, -150, 150, 300, 307])
                    v = [x * f for x in v]
                for _ in range(r.choice([1, 1, 2, 10])):
                    v[r.randrange(len(v))] = r.choice([INF, -INF, NAN, 1.7976931348623157e308, -1.7976931348623157e308, 1e308, 5e-324, -5e-324, 2.2250738585072014e-308, -0.0, 1e16, -1.0])
                count("fits with extreme values")
            cn, arg = container(r, v)
        rc = ref.fit(v)
        try:
            out = s.fit(arg)
            prc = 0
            if out is not None:
                fail("fit-value", "fit returned %r" % (out,))
        except RuntimeError as e:
            prc = -1
            b = ctypes.create_string_buffer(256)
            Ref.lib.ref_error(-rc, b, 256)
            if rc < 0 and str(e) != b.value.decode():
                fail("fit-message", "fit raised %r for error %d (%r)" % (str(e), rc, b.value.decode()))
        count("fits of " + cn)
        if (rc < 0) != (prc < 0):
            return fail("fit", "fit of %d values (%s): C returns %d, python %s" % (len(v), cn, rc, "raises" if prc else "succeeds"))
        compare(s, ref, "fit(%s of %d)" % (cn, len(v)))
        if r.random() < .1:  # a fit of python values that is refused leaves both alone
            try:
                s.fit(v[:3] + ["x"])
                fail("bad-fit", "fit accepted a string")
            except TypeError:
                pass
            except ValueError:
                pass
            compare(s, ref, "refused fit")
        if r.random() < .2:
            b = r.choice([1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 50]) + r.randrange(100)
            poke(s, ref, b, b >> r.randrange(0, 20))
            compare(s, ref, "large counters")
        for j in range(6 if big else r.choice([20, 100, 300])):
            o, _ = ref.state()
            t, z, sg = o[4], o[5], -1 if o[3] else 1
            u = r.random()
            if u < .06:
                x = r.choice([NAN, INF, -INF, 0, -1, True, 10 ** 15, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, -0.0])
            elif u < .16 and t == t and z == z:
                x = r.choice([t, z, math.nextafter(z, INF), math.nextafter(z, -INF), math.nextafter(t, INF), math.nextafter(t, -INF), z + sg * (1 + abs(z))])
            elif u < .45 and t == t and z == z and abs(z - t) < 1e200:
                x = t + (z - t) * r.random()
            else:
                x = draw(r, k)
            if np is not None and r.random() < .1:
                x = r.choice([np.float64(x), np.float64(x)])
            elif r.random() < .05:  # other kinds of numbers
                x = r.choice([Good(float(x)), Idx(), 2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 53 + 1, 10 ** 70, -10 ** 70, Fraction(1, 3), Fraction(10 ** 30, 7), Decimal("1.5"), Decimal("-1e25"), False])
                count("steps with other kinds of numbers")
            fx = float(x)
            a, b = s.step(x), ref.step(fx)
            evals += 1
            h.update(b"%d" % a)
            count({0: "NORMAL", 1: "EXCESS", 2: "ANOMALY"}.get(b, "rejected"))
            if a != b or not isinstance(a, int):
                return fail("step", "step(%r) gives %r, the C detector %r" % (x, a, b))
            if j % 5 == 0:
                qq = r.choice([q, 1e-3, .1, 0.0, -1.0, NAN, r.random()])
                y1, y2 = s.quantile(qq), Ref.lib.ref_quantile(ref.p, qq)
                if not same(y1, y2):
                    return fail("quantile", "quantile(%r) gives %r, the C detector %r" % (qq, y1, y2))
                xx = r.choice([t, z, draw(r, k), INF, NAN, 3, 2 ** 64, -2 ** 70, Fraction(5, 2)])
                y1, y2 = s.probability(xx), Ref.lib.ref_probability(ref.p, float(xx))
                if not same(y1, y2):
                    return fail("probability", "probability(%r) gives %r, the C detector %r" % (xx, y1, y2))
                count("queries", 2)
            if j % 20 == 0 or b > 0:
                if not compare(s, ref, "step %d (%r)" % (j, x)):
                    return
    distinct.add(h.hexdigest()[:14])
    if len(samples) < 6:
        samples.append("Spot(q=%.3g, %r) on %s data: n=%d Nt=%d t=%.5g z=%.5g" % (q, kw, k, s.n, s.Nt, s.excess_threshold, s.anomaly_threshold))


def threads(i):
    """calls from several threads on one object take effect one at a time"""
    global cur, evals, mode
    import threading
    mode, cur = "threads", i
    r = random.Random(SEED * 31337 + i)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def run(*fs):
        errs = []

        def wrap(f):
            try:
                f()
            except BaseException as e:
                errs.append(e)
        ts = [threading.Thread(target=wrap, args=(f,)) for f in fs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for e in errs:
            fail("threads-exception", "a thread raised %r" % (e,))

    try:
        # a reader sees the detector before or after a fit, never in between
        p = dict(level=.9, max_excess=r.choice([20, 500]), low=r.choice([0, 1]))
        d = [array.array("d", [r.gauss(m, 1) for _ in range(60000)]) for m in (0, 7)]
        s = Spot(.001, **p)
        ok = {repr(s.as_dict())}
        for x in d:
            o = Spot(.001, **p)
            o.fit(x)
            ok.add(repr(o.as_dict()))
        stop, seen, bad = [], set(), []

        def fits():
            try:
                for k in range(12):
                    s.fit(d[k % 2])
            finally:
                stop.append(1)

        def look():
            while not stop:
                v = repr(s.as_dict())
                seen.add(v)
                if v not in ok and not bad:
                    bad.append(v)
                time.sleep(0)
        run(fits, look, look)
        evals += 12
        count("concurrent reads of a detector being fitted: distinct states", len(seen))
        if bad:
            fail("threads-fit", "a thread sees a state of the detector that is neither that before nor that after a fit: %.300s" % bad[0])
        # conservation: nothing is lost or counted twice
        o = Spot(.001, level=.9, max_excess=4000, discard_anomalies=0)
        o.fit(d[0][:2000])
        n, nt, t = o.n, o.Nt, o.excess_threshold
        before = sorted(o.excesses())
        xs = [[t + r.expovariate(1) if r.random() < .3 else t - r.random() for _ in range(150)] for _ in range(4)]

        def stepper(v):
            def f():
                for x in v:
                    o.step(x)
            return f
        run(*[stepper(v) for v in xs])
        allx = [x for v in xs for x in v]
        ex = sorted(before + [x - t for x in allx if x >= t])
        evals += len(allx)
        count("concurrent steps on one detector", len(allx))
        if o.n != n + len(allx) or o.Nt != nt + sum(x >= t for x in allx) or sorted(o.excesses()) != ex:
            fail("threads-steps", "%d steps of 4 threads on one detector: n %d -> %d, Nt %d -> %d, %d excesses stored, %d expected" % (len(allx), n, o.n, nt, o.Nt, len(o.excesses()), len(ex)))
        # initialised again while it is used
        o = Spot(.001, level=.9, max_excess=3000)
        o.fit(d[0][:3000])

        def again():
            for k in range(40):
                o.__init__(.001, level=.9, max_excess=r.choice([1, 100, 3000, 100000]))

        def use():
            for k in range(8):
                o.fit(d[0][:20000])
                o.step(3.0)
                o.excesses()
                o.quantile(.001)
        run(again, use, use)
        o.fit(d[0][:3000])
        q = Spot(.001, level=.9, max_excess=o.as_dict()["tail"]["peaks"]["container"]["capacity"])
        q.fit(d[0][:3000])
        evals += 1
        count("detectors initialised again while in use")
        if repr(o.as_dict()) != repr(q.as_dict()):
            fail("threads-init", "a detector initialised by one thread and used by others is not usable afterwards")
        distinct.add("threads%d-%d" % (i, len(seen)))
    finally:
        sys.setswitchinterval(old)


def c18():
    global mode
    mode = "lockstep"
    if (libspot.NORMAL, libspot.EXCESS, libspot.ANOMALY) != (0, 1, 2):
        fail("constants", "NORMAL/EXCESS/ANOMALY are %r" % ((libspot.NORMAL, libspot.EXCESS, libspot.ANOMALY),))
    if libspot.__version__ != os.environ.get("EXPECT_VERSION", libspot.__version__):
        fail("version", "__version__ is %r" % libspot.__version__)
    d = Spot(1e-4)
    if d.as_dict()["low"] != 0 or d.as_dict()["discard_anomalies"] != 1 or d.level != .98 or d.as_dict()["tail"]["peaks"]["container"]["capacity"] != 500:
        fail("defaults", "the default parameters are %r" % d.as_dict())
    for i in range(CASES):
        if i % NSH == SHARD:
            c18_case(i)
    for i in range(16 if TIER != "thorough" else 160):
        if i % NSH == SHARD:
            threads(i)


# ------------------------------------------------------------------- C19 ---
def state(s):
    def flat(d):
        return tuple((k, flat(v)) if isinstance(v, dict) else (k, tuple(repr(x) for x in v)) if isinstance(v, list) else (k, repr(v)) for k, v in sorted(d.items()))
    return flat(s.as_dict()), bytes(s.raw())


class Boom(Exception):
    pass


class BadFloat:
    def __float__(self):
        raise Boom()


class NotFloat:
    def __float__(self):
        return "3"


class Good:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v


class Idx:
    def __index__(self):
        return 3


class BadSeq:
    def __len__(self):
        return 10

    def __getitem__(self, i):
        if i == 4:
            raise Boom()
        return float(i)


class BadLen:
    def __len__(self):
        raise Boom()

    def __getitem__(self, i):
        raise IndexError


def boom_gen(n):
    for i in range(n):
        yield float(i)
    raise Boom()


def bad_numbers():
    return ["1.0x", "abc", None, [], {}, object(), 1j, BadFloat(), NotFloat(), 10 ** 400, -10 ** 400, b"1", Spot, lambda: 1, (1.0,), float]


def bad_data():
    return [None, 3, 2.5, object(), BadLen(), BadSeq(), boom_gen(3), boom_gen(50), "abcdefgh", ["a"] * 8, [1.0] * 7 + [None], [None] + [1.0] * 7, [1.0] * 3 + [BadFloat()] + [2.0] * 9, [10 ** 400] * 6, [1.0] * 9 + [10 ** 400], {1.0: 2, "x": 3}, [[1.0]] * 6, (x for x in [1, 2, 3, 4, "z", 6]), [1j] * 6, [1.0] * 5 + [NotFloat()], Spot, BadFloat()]


def mk(r):
    level = r.choice([.5, .9, .98])
    s = Spot((1 - level) / 20, level=level, low=r.choice([0, 1]), max_excess=r.choice([1, 3, 20, 200]), discard_anomalies=r.choice([0, 1]))
    if r.random() < .8:
        try:
            s.fit([r.gauss(0, 1) for _ in range(r.choice([10, 100, 500]))])
        except RuntimeError:
            s.fit([r.gauss(0, 1) for _ in range(500)])
        for _ in range(r.randrange(30)):
            s.step(r.gauss(0, 1.5))
    return s


def c19_case(i):
    global cur, evals
    cur = i
    r = random.Random(SEED * 7919 + i)
    s = mk(r)
    n0 = 0
    h = hashlib.sha1()

    def refused(what, f, *a, may=False, **k):
        global evals
        evals += 1
        before = state(s)
        try:
            out = f(*a, **k)
        except Exception as e:
            if isinstance(e, SystemError):
                fail("system-error", "%s raised SystemError: %s" % (what, e))
            count("raised " + type(e).__name__)
            h.update(type(e).__name__.encode())
        else:
            if not may:
                fail("accepted-" + what.split("(")[0].split()[0], "%s was accepted (returned %r)" % (what, out))
        if state(s) != before:
            fail("state-" + what.split("(")[0].split()[0], "%s changed the detector although it failed" % what)

    for _ in range(12):
        k = r.randrange(9)
        b = r.choice(bad_numbers())
        if k == 0:
            refused("step(%.40r)" % (b,), s.step, b)
        elif k == 1:
            refused("quantile(%.40r)" % (b,), s.quantile, b)
        elif k == 2:
            refused("probability(%.40r)" % (b,), s.probability, b)
        elif k in (3, 4):
            d = r.choice(bad_data())
            refused("fit(%.60r)" % (d,), s.fit, d)
        elif k == 5:
            a, kw = r.choice([((), {}), ((0.0,), {}), ((-1.0,), {}), ((1.0,), {}), ((NAN,), {}), ((.5,), {"level": .98}), ((1e-3,), {"level": 1.0}), ((1e-3,), {"level": -.1}), ((1e-3,), {"level": NAN}), ((1e-3,), {"max_excess": 0}), ((1e-3,), {"max_excess": 2 ** 61}), ((1e-3,), {"max_excess": 2 ** 62 + 3}), ((1e-3,), {"max_excess": -1}), ((1e-3,), {"bogus": 1}), (("x",), {}), ((1e-3,), {"low": "x"}), ((1e-3,), {"level": "x"}), ((1e-3,), {"max_excess": 1.5}), ((None,), {}), ((1e-3, 1), {}), ((1e-3, 0, 1), {}), ((10 ** 400,), {}), ((1e-3,), {"low": 2 ** 70}), ((INF,), {}), ((1e-3,), {"max_excess": "9"}), ((1e-3,), {"q": 1e-3}), ((BadFloat(),), {})])
            refused("Spot%r %r" % (a, kw), Spot, *a, **kw)
            refused("__init__%r %r" % (a, kw), s.__init__, *a, **kw)
        elif k == 6:
            f = r.choice([s.step, s.fit, s.quantile, s.probability])
            refused("call-without-argument", f)
            refused("call-with-two-arguments", f, 1.0, 2.0)
            refused("raw-with-argument", s.raw, 1)
            refused("excesses-with-argument", s.excesses, 1)
        elif k == 7:
            a = r.choice(["q", "level", "n", "Nt", "gamma", "sigma", "anomaly_threshold", "excess_threshold"])
            refused("setattr(%s)" % a, setattr, s, a, 3.0)
            refused("setattr(%s)" % a, setattr, s, a, 3)
            refused("delattr(%s)" % a, delattr, s, a)
        else:
            # impossible fits on valid numbers raise; the detector remains usable
            d = r.choice([[], [1.0], [1.0, 2.0, 3.0, 4.0], (), range(3), [NAN] * 10, array.array("d", [1, 2])])
            evals += 1
            try:
                s.fit(d)
                fail("impossible-fit", "fit(%r) succeeded" % (d,))
            except RuntimeError as e:
                if not str(e):
                    fail("no-message", "fit(%r) raised without a message" % (d,))
                count("raised RuntimeError")
            v = [r.gauss(0, 1) for _ in range(400)]
            s.fit(v)
            o = Spot(s.q, level=s.level, low=s.as_dict()["low"], discard_anomalies=s.as_dict()["discard_anomalies"], max_excess=s.as_dict()["tail"]["peaks"]["container"]["capacity"])
            o.fit(v)
            if state(s)[0] != state(o)[0]:
                fail("unusable", "after a failed fit, a new fit differs from that of a new object")
            count("recoveries compared")
        # still alive and coherent
        s.step(r.gauss(0, 1))
    # values that are numbers in every way
    for x in (Good(.5), Idx(), True, 7, Decimal("1.5"), Fraction(1, 3)) + ((np.float32(.5), np.int64(3), np.array(2.5)) if np is not None else ()):
        try:
            s.step(x)
            s.quantile(.01)
            s.probability(x)
            evals += 2
        except Exception as e:
            fail("number", "step(%r) raised %r" % (x, e))
    count("numbers accepted", 6)
    # every sequence type fits like a list
    v = [r.gauss(0, 1) for _ in range(r.choice([40, 100, 200]))]
    p = dict(level=.9, max_excess=30, low=r.choice([0, 1]))
    ref = Spot(.01, **p)
    ref.fit(v)
    for _ in range(4):
        cn, arg = container(r, v)
        o = Spot(.01, **p)
        try:
            o.fit(arg)
        except Exception as e:
            fail("sequence", "fit of a %s raised %r" % (cn, e))
            continue
        evals += 1
        count("sequence types compared")
        if state(o)[0] != state(ref)[0]:
            fail("sequence-differs", "fit of a %s differs from the fit of the same list" % cn)
    # values are converted like floats
    w = [Good(x) if j % 3 == 0 else Fraction(x) if j % 3 == 1 else x for j, x in enumerate(v)]
    o = Spot(.01, **p)
    try:
        o.fit(w)
        if state(o)[0] != state(ref)[0]:
            fail("sequence-differs", "fit of number-like objects differs from the fit of floats")
    except Exception as e:
        fail("sequence", "fit of number-like objects raised %r" % e)
    # hostile conversions: the list changes, the object is used, while it is read
    lst = list(v) + [0.0]

    class Evil:
        def __init__(self, k):
            self.k = k

        def __float__(self):
            if self.k == 0:
                del lst[:]
            elif self.k == 1:
                lst.extend([1.0] * 1000)
            elif self.k == 2:
                o.fit(v)
            elif self.k == 3:
                o.__init__(.01, max_excess=3)
            elif self.k == 4:
                gc.collect()
            return .25
    lst[r.randrange(5)] = Evil(r.randrange(5))
    o = Spot(.01, **p)
    try:
        o.fit(lst)
        o.step(1.0)
        o.excesses()
    except (RuntimeError, IndexError, TypeError, ValueError):
        pass
    evals += 1
    count("hostile conversions")

    # a conversion that uses the detector first: what it did comes before the call that asked for it
    def twin():
        t = Spot(.01, **p)
        t.fit(v)
        return t

    def nested(t, k):
        if k == 0:
            t.fit(w2)
        elif k == 1:
            t.__init__(.02, level=.8, max_excess=6)
            t.fit(w2)
        elif k == 2:
            for x in w2[:20]:
                t.step(x)
        elif k == 3:
            t.step(t.anomaly_threshold - .25 * (t.anomaly_threshold - t.excess_threshold))
        elif k == 4:
            t.as_dict()
            t.excesses()
        return .25 + t.excess_threshold

    class Nested:
        def __init__(self, t, k):
            self.t, self.k = t, k

        def __float__(self):
            return nested(self.t, self.k)

    w2 = [r.gauss(1, 2) for _ in range(120)]
    for what in ("step", "quantile", "probability", "fit"):
        k = r.randrange(5)
        t1, t2 = twin(), twin()
        try:
            if what == "fit":
                at = r.randrange(40)
                o1 = t1.fit(v[:at] + [Nested(t1, k)] + v[at:])
                x = nested(t2, k)
                o2 = t2.fit(v[:at] + [x] + v[at:])
            else:
                o1 = getattr(t1, what)(Nested(t1, k))
                x = nested(t2, k)
                o2 = getattr(t2, what)(x)
        except RuntimeError:
            count("nested conversions refused")
            continue
        evals += 1
        count("nested conversions compared")
        if repr(o1) != repr(o2):
            fail("nested-result", "%s of a number whose conversion uses the detector (kind %d) gives %r instead of %r" % (what, k, o1, o2))
        if state(t1)[0] != state(t2)[0]:
            fail("nested-state", "%s of a number whose conversion uses the detector (kind %d) leaves another state" % (what, k))

    # subclasses, uninitialised objects
    class Sub(Spot):
        def __init__(self, *a, **k):
            if a:
                super().__init__(*a, **k)
    u = r.choice([Sub, lambda: Spot.__new__(Spot)])()
    for f, a in ((u.excesses, ()), (u.as_dict, ()), (u.raw, ()), (u.quantile, (.1,)), (u.probability, (1.0,)), (u.step, (1.0,)), (u.step, (-1.0,)), (u.fit, (v,)), (u.step, (2.0,))):
        try:
            f(*a)
        except (RuntimeError, ValueError):
            pass
        evals += 1
    u.__init__(.001, max_excess=5)
    o = Spot(.001, max_excess=5)
    w = [r.gauss(0, 1) for _ in range(600)]
    u.fit(w)
    o.fit(w)
    if state(u)[0] != state(o)[0]:
        fail("late-init", "an object initialised late differs from an ordinary one")
    count("uninitialised objects")
    # init again replaces the detector
    s.__init__(.002, level=.9, max_excess=7)
    o = Spot(.002, level=.9, max_excess=7)
    if state(s)[0] != state(o)[0]:
        fail("re-init", "an object initialised again differs from a new one")
    s.fit(v)
    o.fit(v)
    if state(s)[0] != state(o)[0]:
        fail("re-init", "an object initialised again differs from a new one")
    h.update(b"%d" % i)
    distinct.add(h.hexdigest()[:14])


def c19_memory(i):
    """the k-th allocation of the interpreter fails during a call"""
    global evals, mode, cur
    mode, cur = "memory", i
    try:
        import _testcapi
        nomem, restore = _testcapi.set_nomemory, _testcapi.remove_mem_hooks
    except (ImportError, AttributeError):
        count("no allocation faults on this interpreter")
        return
    r = random.Random(SEED * 31 + i)
    v = [r.gauss(0, 1) for _ in range(r.choice([60, 60, 900]))]
    tup, arr = tuple(v), array.array("d", v)
    kw = dict(level=r.choice([.5, .9]), low=r.choice([0, 1]), max_excess=r.choice([3, 20, 200, 600]))

    def fresh():
        t = Spot(.01, **kw)
        t.fit(v)
        for x in v[:r.choice([0, 30])]:
            t.step(2 * x)
        return t
    s = fresh()
    x = s.excess_threshold
    calls = [("fit", s.fit, (v,), {}), ("fit", s.fit, (tup,), {}), ("fit", s.fit, (arr,), {}), ("step", s.step, (x,), {}), ("quantile", s.quantile, (.001,), {}), ("probability", s.probability, (x + 1,), {}), ("excesses", s.excesses, (), {}),
             ("as_dict", s.as_dict, (), {}), ("raw", s.raw, (), {}), ("Spot", Spot, (.01,), kw), ("Spot", Spot, (5.0,), {}), ("__init__", s.__init__, (.02,), kw), ("step", s.step, ("x",), {}), ("fit", s.fit, ([1.0, 2.0],), {})]
    what, f, a, k = calls[i % len(calls)]
    refused = (what, a) in (("Spot", (5.0,)), ("step", ("x",)), ("fit", ([1.0, 2.0],)))
    for n in range(1 << 20):
        before = state(s)
        err = out = None
        nomem(n, n + 1)
        try:
            out = f(*a, **k)
        except MemoryError:
            err = "memory"
        except Exception as e:
            err = type(e)
        finally:
            restore()
        evals += 1
        after = state(s)
        if err == "memory":
            count("allocations refused")
            if after != before and not (refused and what == "fit"):  # a failed fit may reset, then fail to say so
                fail("memory-state-" + what, "%s without memory (allocation %d) changed the detector" % (what, n))
        else:
            if err is SystemError or (err is None) == refused:
                fail("memory-result-" + what, "%s with allocation %d refused: %r" % (what, n, err or out))
            if err is None and what == "excesses" and out != s.excesses() or err is None and what == "as_dict" and repr(out) != repr(s.as_dict()) or err is None and what == "raw" and bytes(out) != after[1]:
                fail("memory-partial-" + what, "%s with allocation %d refused gives %.200r" % (what, n, out))
            if what in ("excesses", "as_dict", "raw", "quantile", "probability", "Spot") and after != before:
                fail("memory-state-" + what, "%s changed the detector" % what)
        out = None
        # enough calls without any refusal in a row: the faults are beyond the call
        ok = 0 if err == "memory" else ok + 1 if n else 1
        if ok > 25:
            break
    count("calls under memory faults")
    h = "%s %d %s" % (what, n, kw)
    distinct.add(hashlib.sha1(h.encode()).hexdigest()[:14])


def used():
    class MI(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MI

    def f():
        gc.collect()
        m = libc.mallinfo2()
        return m.uordblks + m.hblkhd
    return f


def cycles(r):
    v = [float(x) for x in range(60)]
    fitted = Spot(.01, level=.9, max_excess=10)
    fitted.fit(v)
    big = [1.0] * 400
    inputs = list(v)

    def swallow(f, *a, **k):
        try:
            f(*a, **k)
        except Exception:
            pass

    class Sub(Spot):
        pass

    class Quiet(Spot):
        def __init__(self):
            pass

    def full():
        s = Spot(.01, level=.9, max_excess=50)
        s.fit(v)
        for x in (1.0, 55.0, 59.5, 1e9, NAN):
            s.step(x)
        s.excesses()
        s.as_dict()
        s.raw()
        s.quantile(.01)
        s.probability(1.0)

    def cyc():
        s = Sub(.01)
        s.me = s

    yield "create and destroy", lambda: Spot(.01, max_excess=100)
    yield "create large", lambda: Spot(.01, max_excess=100000)
    yield "subclass", lambda: Sub(.01, max_excess=100)
    yield "subclass in a reference cycle", cyc
    yield "never initialised", lambda: Quiet()
    yield "full life", full
    yield "refused parameters", lambda: swallow(Spot, 5.0)
    yield "refused memory", lambda: swallow(Spot, .01, max_excess=2 ** 61)
    yield "refused keyword", lambda: swallow(Spot, .01, bogus=3)
    yield "refused type", lambda: swallow(Spot, "x")
    yield "init again", lambda: fitted.__init__(.01, level=.9, max_excess=10)
    yield "init again, refused", lambda: swallow(fitted.__init__, 3.0)
    yield "fit list", lambda: fitted.fit(inputs)
    yield "fit tuple", lambda: fitted.fit(tuple(v))
    yield "fit generator", lambda: fitted.fit(x for x in v)
    yield "fit array", lambda: fitted.fit(array.array("d", v))
    if np is not None:
        yield "fit numpy", lambda: fitted.fit(np.array(v))
    yield "fit too few", lambda: swallow(fitted.fit, [1.0, 2.0])
    yield "fit empty", lambda: swallow(fitted.fit, [])
    yield "fit a scalar", lambda: swallow(fitted.fit, 3)
    yield "fit None", lambda: swallow(fitted.fit, None)
    yield "fit with a bad first value", lambda: swallow(fitted.fit, ["x"] + big)
    yield "fit with a bad last value", lambda: swallow(fitted.fit, big + ["x"])
    yield "fit with a raising value", lambda: swallow(fitted.fit, big + [BadFloat()])
    yield "fit with a raising generator", lambda: swallow(fitted.fit, boom_gen(200))
    yield "fit with a raising sequence", lambda: swallow(fitted.fit, BadSeq())
    yield "fit with a failing length", lambda: swallow(fitted.fit, BadLen())
    yield "fit of number-like objects", lambda: fitted.fit([Good(x) for x in v])
    yield "fit of an uninitialised object", lambda: swallow(Quiet().fit, v)
    yield "step", lambda: fitted.step(3.5)
    yield "step excess", lambda: fitted.step(fitted.excess_threshold)
    yield "step refused", lambda: swallow(fitted.step, "x")
    yield "step raising", lambda: swallow(fitted.step, BadFloat())
    yield "step of number-like", lambda: fitted.step(Good(1.0))
    yield "step of an uninitialised object", lambda: swallow(Quiet().step, 1.0)
    yield "quantile", lambda: fitted.quantile(.001)
    yield "quantile refused", lambda: swallow(fitted.quantile, None)
    yield "probability", lambda: fitted.probability(3.0)
    yield "probability refused", lambda: swallow(fitted.probability, [])
    try:
        import _testcapi

        def nomem(k, f, *a):
            _testcapi.set_nomemory(k, k + 1)
            try:
                f(*a)
            except MemoryError:
                pass
            finally:
                _testcapi.remove_mem_hooks()
        wide = Spot(.01, level=.5, max_excess=1000)
        wide.fit([float(x * 7919 % 10007) for x in range(900)])
        for nm, fn in (("excesses of a wide window", wide.excesses), ("as_dict of a wide window", wide.as_dict)):
            yield nm + " without memory", lambda fn=fn: [nomem(k, fn) for k in (0, 1, 5, 50, 120, 200, 300)]
        for nm, fn, a in (("fit", fitted.fit, (v,)), ("excesses", fitted.excesses, ()), ("as_dict", fitted.as_dict, ()), ("Spot", Spot, (.01,))):
            yield nm + " without memory", lambda fn=fn, a=a: [nomem(k, fn, *a) for k in range(24)]
    except (ImportError, AttributeError):
        pass
    yield "excesses", lambda: fitted.excesses()
    yield "as_dict", lambda: fitted.as_dict()
    yield "raw", lambda: fitted.raw()
    yield "attributes", lambda: (fitted.q, fitted.level, fitted.n, fitted.Nt, fitted.gamma, fitted.sigma, fitted.anomaly_threshold, fitted.excess_threshold)


def c19_leaks():
    global evals, mode, cur
    mode = "leak"
    f = used()
    r = random.Random(SEED)
    reps = 400 if TIER != "thorough" else 2000
    for i, (name, fn) in enumerate(cycles(r)):
        if i % NSH != SHARD:
            continue
        cur = i
        for _ in range(60):
            fn()
        rc0, grow = sys.getrefcount(Spot), []
        for _ in range(3):
            a = f()
            for _ in range(reps):
                fn()
            grow.append(f() - a)
            evals += reps
        count("cycles observed", 3 * reps)
        count("kinds of cycles")
        rc1 = sys.getrefcount(Spot)
        if min(grow) >= 8 * reps:
            fail("leak-" + name, "%s: %d bytes lost per cycle (heap in use grew by %s over batches of %d)" % (name, min(grow) // reps, grow, reps))
        if abs(rc1 - rc0) > reps:
            fail("type-reference-" + name, "%s: the reference count of the type moved by %d in %d cycles" % (name, rc1 - rc0, 3 * reps))
        distinct.add(hashlib.sha1(name.encode()).hexdigest()[:14])
        if len(samples) < 6:
            samples.append("%s x %d: heap growth %s bytes per batch of %d" % (name, 3 * reps, grow, reps))
    # references to the inputs
    one = 12345.678
    s = Spot(.01, level=.5, max_excess=10)
    lst = [one] * 5 + [float(i) for i in range(20)]
    s.fit(lst)
    for what, fn in (("fit", lambda: s.fit(lst)), ("step", lambda: s.step(one)), ("quantile", lambda: s.quantile(one)), ("probability", lambda: s.probability(one))):
        a, b = sys.getrefcount(one), sys.getrefcount(lst)
        for _ in range(500):
            fn()
        evals += 500
        if abs(sys.getrefcount(one) - a) > 100 or abs(sys.getrefcount(lst) - b) > 100:
            fail("reference-" + what, "%s moves the reference counts of its arguments" % what)
    for d in (s.as_dict(), s.excesses(), s.raw()):
        x = d["tail"]["peaks"]["container"]["data"] if isinstance(d, dict) else d
        if sys.getrefcount(x) > 5:
            fail("reference-result", "a returned object has %d references" % sys.getrefcount(x))


def c19_limit():
    """the copy of the training data does not fit in memory"""
    global evals, mode
    import resource
    mode = "limit"
    n = 6000000
    big = [1.5] * n
    s = Spot(.01, level=.9, max_excess=10)
    s.fit([float(i * 7 % 61) for i in range(200)])
    f = used()
    before, a = state(s), f()
    for extra in (4, 20, 60, 64, 72, 80, 88):  # MB: the list, or the array after it, or both do not fit
        for line in open("/proc/self/status"):
            if line.startswith("VmSize"):
                vm = int(line.split()[1]) << 10
        old = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (vm + (extra << 20), old[1]))
        err = None
        try:
            s.fit(big)
        except MemoryError:
            err = MemoryError
        except Exception as e:
            err = e
        resource.setrlimit(resource.RLIMIT_AS, old)
        evals += 1
        count("fits that do not fit in memory")
        if err is not MemoryError and (extra < 45 or isinstance(err, SystemError)):  # above, one copy could be enough
            fail("limit-result", "fit of %d values with %d MB left: %r" % (n, extra, err))
        elif err is MemoryError and state(s) != before:
            fail("limit-state", "fit of %d values with %d MB left changed the detector" % (n, extra))
    if f() - a > 30 << 20:
        fail("limit-leak", "%d bytes are lost by fits that ran out of memory" % (f() - a))


def c19_large():
    """objects really give back their storage: many large detectors in sequence under a memory limit"""
    global evals, mode
    import resource
    mode = "large"
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    v = [float(i % 97) for i in range(300)]
    for i in range(3000):
        s = Spot(.001, level=.9, max_excess=1 << 20)
        s.fit(v)
        evals += 1
    count("large detectors created and dropped", 3000)


if PROP == "C18":
    c18()
else:
    mode = "errors"
    for i in range(CASES):
        if i % NSH == SHARD:
            c19_case(i)
    for i in range(140 if TIER != "thorough" else 2800):
        if i % NSH == SHARD:
            c19_memory(i)
    for i in range(16 if TIER != "thorough" else 160):
        if i % NSH == SHARD:
            threads(1000 + i)
    if MODE == "leak":
        c19_leaks()
        if SHARD == 1 % NSH:
            c19_limit()
        if SHARD == 0:
            c19_large()
finish()
