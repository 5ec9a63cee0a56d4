"""writes MANIFEST.json from checks.py and properties.jsonl (python3 mkmanifest.py)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and libFuzzer on hostile call histories",
    "C02": "logging, canary-guarded, fault-injecting allocator",
    "C03": "runtime oracle on initialisations around every boundary",
    "C04": "online shadow window compared after every call",
    "C05": "online recomputation of the statistics from the stored excesses",
    "C06": "online verdict oracle from the thresholds recorded before each call",
    "C07": "frame condition on recorded state, and twin streams with and without anomalies/NaN/queries",
    "C08": "online shadow counters",
    "C09": "online recomputation of the quantile in extended precision",
    "C10": "online likelihood oracle with candidate fits recomputed in extended precision",
    "C11": "runtime round-trip and monotonicity monitors on query grids",
    "C12": "runtime fit oracle and rank statistics over many trainings",
    "C13": "twin detectors: one with a past, one new, in lock step",
    "C14": "runtime comparison with long double references over the whole domain",
    "C15": "monitored evaluations of the root finder's function",
    "C16": "canaries around every buffer, AddressSanitizer",
    "C17": "ThreadSanitizer, interleaved/concurrent/cross-process digests",
    "C18": "lock step of the Python class and the C functions",
    "C19": "hostile Python calls with state comparison, leak counters and AddressSanitizer",
    "C20": "lock step of the JavaScript class and the C functions on a monitored WebAssembly heap",
    "C21": "run without C runtime, compared with the hosted run",
    "C22": "statistics of monitored stationary streams",
    "C23": "mirrored detectors in lock step",
    "C24": "scaled detectors in lock step",
    "C25": "basic block counters compiled into the library, per call",
    "C28": "detectors compared with new tails given the same excesses in another order",
    "C27": "shifted detectors in lock step",
    "C26": "moved, cloned and restored detectors in lock step with an untouched twin",
}
NOTE = {
    "C17": "sampled schedules; ThreadSanitizer's happens-before analysis generalises over the schedules seen",
    "C20": "the emscripten loader is replaced by a monitored stand-in; wasm code is generated by clang",
    "C22": "statistical bands validated over many seeds",
}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
                   "technique": "runtime monitoring: " + TECH[i], "level": "exploration",
                   "level_note": NOTE.get(i, "holds on every execution monitored; inputs and histories are sampled, not enumerated")})
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "no hook: the monitors observe the public structure and the allocator, thread and float-helper interfaces", "source_commits": []},
           "checks": checks, "not_applicable": []}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
