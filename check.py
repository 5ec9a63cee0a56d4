#!/usr/bin/env python3
"""Runtime monitors of libspot: driver.

usage: check.py <PROPERTY> [--replay FILE]

Builds the monitored programs from /repo's working tree in a scratch folder,
runs them (sharded over the cores), gathers what the monitors observed, writes
evidence/<PROPERTY>.json and decides:
  exit 0  nothing but (possibly) listed known findings
  exit 1  a violation that known-findings.txt does not list (VIOLATION line)
  exit 2  no verdict (build failure, monitor observed nothing, ...)
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
PATH = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
os.environ["PATH"] = PATH
for k in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "CXXFLAGS", "MAKEFLAGS", "CPATH", "LIBRARY_PATH", "PYTHONPATH", "LD_PRELOAD"):
    os.environ.pop(k, None)
os.environ["LC_ALL"] = "C.UTF-8"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
NPROC = max(2, min(8, os.cpu_count() or 2))

GCC, GXX = "/usr/bin/gcc", "/usr/bin/g++"
CLANG, CLANGXX = "/usr/bin/clang-18", "/usr/bin/clang++-18"
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "MSAN_OPTIONS": "abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4096",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1",
}


class NoVerdict(Exception):
    pass


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.violations = []  # (key, detail, replay dict)
        self.evaluations = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.agg = {}  # group -> values, for statistics over many runs
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.notes = []

    # ---- building -------------------------------------------------------
    def run(self, cmd, timeout=600, env=None, cwd=None, check=True, input=None):
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or self.dir, timeout=timeout, input=input)
        if check and p.returncode:
            raise NoVerdict("command failed: %s\n%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-2000:], p.stderr.decode(errors="replace")[-4000:]))
        return p

    def version(self):
        m = re.search(r"^VERSION\s*=\s*(\S+)", open(os.path.join(REPO, "Makefile"), encoding="utf-8").read(), re.M)
        return m.group(1) if m else "UNDEFINED"

    def sources(self):
        d = os.path.join(REPO, "src")
        return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))

    def lib(self, name, cc=GCC, flags=("-O3",)):
        """compile the library's sources into objects, one flavour"""
        out = os.path.join(self.dir, "lib-" + name)
        os.makedirs(out, exist_ok=True)
        base = [cc, "-std=c99", "-g", "-I" + os.path.join(REPO, "include"), '-DVERSION="%s"' % self.version()]

        def one(src):
            o = os.path.join(out, os.path.basename(src)[:-2] + ".o")
            self.run(base + list(flags) + ["-c", src, "-o", o])
            return o

        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(one, self.sources()))

    def exe(self, name, src, objs, cc=GXX, flags=("-O2",), libs=()):
        out = os.path.join(self.dir, name)
        std = "-std=gnu11" if src.endswith(".c") else "-std=c++17"
        self.run([cc, std, "-g", "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + list(flags) + [os.path.join(HARNESS, src)] + list(objs) + ["-o", out] + list(libs))
        return out

    # ---- verdicts -------------------------------------------------------
    def violation(self, key, detail, replay):
        self.violations.append((key, detail, replay))

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def absorb(self, out, cmd, env):
        """read a monitor's output; returns True when it reached its end"""
        done = False
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "V" and len(f) >= 6:
                self.violation(f[2], f[5], {"cmd": cmd, "env": env, "mode": f[3], "case": f[4]})
            elif f[0] == "J":
                j = json.loads(line[2:])
                self.evaluations += j["evaluations"]
                for k, v in j["counts"].items():
                    self.count(k, v)
                for s in j["samples"]:
                    if len(self.samples) < 12:
                        self.samples.append(s)
                done = True
            elif f[0] == "A":
                self.agg.setdefault(f[1], []).extend(float(x) for x in f[2:])
            elif f[0] == "D":
                self.distinct.update(f[1:])
        return done

    def monitor(self, cmd, env=None, timeout=250, cwd=None, key_prefix=""):
        """run one monitor process; crash, sanitizer report or repeated hang is a violation"""
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or self.dir, start_new_session=True)
        t0, hung = time.time(), None
        while True:
            try:
                out, err = p.communicate(timeout=5)
                break
            except subprocess.TimeoutExpired:
                # judged on processor time, so that a loaded machine is no hang
                cpu, wall = cpu_seconds(p.pid), time.time() - t0
                if cpu > timeout:
                    hung = "no end after %ds of processor time: %s" % (cpu, " ".join(cmd))
                elif wall > (820 if not THOROUGH else 20000):
                    hung = ""
                if hung is not None:
                    os.killpg(p.pid, signal.SIGKILL)
                    out, err = p.communicate()
                    break
        if hung is not None:
            self.absorb(out.decode(errors="replace"), cmd, env)
            if not hung:
                raise NoVerdict("the machine is too slow: %s" % " ".join(cmd))
            self.violation(key_prefix + "hang", hung, {"cmd": cmd, "env": env})
            return None
        out, err = out.decode(errors="replace"), err.decode(errors="replace")
        done = self.absorb(out, cmd, env)
        san = san_report(err)
        if p.returncode != 0 or san or not done:
            if p.returncode == 2 and not san:
                raise NoVerdict("monitor error: %s\n%s\n%s" % (" ".join(cmd), out[-1500:], err[-3000:]))
            if p.returncode == -9:
                raise NoVerdict("monitor killed (memory?): %s" % " ".join(cmd))
            self.violation(key_prefix + "crash:" + (san or ("exit %d" % p.returncode)), (err or out)[-3000:], {"cmd": cmd, "env": env})
            return None
        return out

    def sharded(self, exe, cases, args=(), env=None, timeout=250, shards=None, prefix=()):
        n = shards or 4 * NPROC
        cmds = [list(prefix) + [exe, self.prop, str(SEED), str(cases), str(i), str(n), TIER] + list(args) for i in range(n)]
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(lambda c: self.monitor(c, env, timeout), cmds))


def cpu_seconds(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return 0.0


def san_report(err):
    m = re.search(r"(ERROR: (?:Address|Memory|Leak)Sanitizer: [\w-]+|WARNING: (?:Thread|Memory)Sanitizer: [\w -]+?(?= \(|$|\n)|runtime error: [^\n]+|ERROR: AddressSanitizer[^\n]*|== ?ERROR: libFuzzer: [^\n]+)", err)
    if not m:
        return None
    loc = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/repo/((?:src|python|wasm|include)/[\w./]+)", err)
    return m.group(1).strip() + (" in %s (%s)" % (loc.group(1), loc.group(2)) if loc else "")


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    prop = sys.argv[1]
    sys.path.insert(0, VERIF)
    import checks

    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    fn, level, rule, assumptions, minimum = checks.CHECKS[prop]
    ctx = Ctx(prop)
    ctx.rule, ctx.assumptions = rule, list(assumptions)
    status = 0
    try:
        try:
            fn(ctx)
        except NoVerdict as e:
            print("NO VERDICT property=%s: %s" % (prop, e))
            status = 2
        except subprocess.TimeoutExpired as e:
            print("NO VERDICT property=%s: timeout %s" % (prop, e))
            status = 2
        known = dict(known_findings(prop))
        seen_known, fresh = set(), {}
        for key, detail, rep in ctx.violations:
            if key in known:
                seen_known.add(key)
            else:
                fresh.setdefault(key, (detail, rep))
        if status == 0 and not fresh and (ctx.evaluations < minimum or len(ctx.distinct) < 2):
            print("NO VERDICT property=%s: the monitors observed too little (%d events, %d distinct)" % (prop, ctx.evaluations, len(ctx.distinct)))
            status = 2
        ev = {
            "property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level,
            "coverage": {
                "evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.distinct), "rule": ctx.rule,
                "samples": ctx.samples, "observed": dict(sorted(ctx.counts.items())),
                "known_findings_seen": sorted(seen_known), "verdict": "violated" if fresh else ("inconclusive" if status else "held on what was observed"),
            },
            "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(fresh),
        }
        ev["coverage"].update(ctx.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
        if fresh:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for key, (detail, rep) in list(fresh.items())[:10]:
                h = hashlib.sha1((key + detail).encode()).hexdigest()[:10]
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
                with open(path, "w") as f:
                    json.dump({"property": prop, "key": key, "detail": detail, "seed": SEED, "tier": TIER, "replay": rep}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  %s: %s" % (key, detail.strip().replace("\n", "\n    ")[:1500]))
            status = 1
        print("%s %s: %d events observed, %d distinct non-trivial cases, %.1fs" % (prop, ["held", "VIOLATED", "no verdict"][status], ctx.evaluations, len(ctx.distinct), time.time() - ctx.t0))
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
    return status


def replay(prop, path):
    """re-run a recorded violation: same seed and tier, the whole check (cases are functions of seed and index)"""
    j = json.load(open(path))
    print(json.dumps(j, indent=1))
    os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(j["seed"]), j["tier"]
    return subprocess.call([sys.executable, os.path.join(VERIF, "check.py"), prop])


if __name__ == "__main__":
    sys.exit(main())
