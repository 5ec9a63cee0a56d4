// C20: the JavaScript class in lock step with the C functions of a second
// WebAssembly instance; its heap is monitored.
// args: PROP SEED CASES SHARD NSHARDS TIER
import crypto from "crypto";
import { Heap, instantiate } from "./heap.mjs";
const [PROP, SEED, CASES, SHARD, NSH, TIER] = process.argv.slice(2).map((v, i) => (i === 0 || i === 5 ? v : Number(v)));
let evals = 0, cur = -1, mode = "";
const counts = Object.create(null), samples = [], distinct = new Set(), seen = new Set();
const count = (k, n = 1) => { counts[k] = (counts[k] ?? 0) + n; };
const fail = globalThis.__report = (key, detail) => {
  if (seen.has(key) || seen.size > 20) return;
  seen.add(key);
  console.log(["V", PROP, key, mode, cur, String(detail).replace(/[\t\n]/g, " ")].join("\t"));
};
const finish = () => {
  console.log("J\t" + JSON.stringify({ evaluations: evals, counts, samples: samples.slice(0, 6) }));
  console.log("D\t" + [...distinct].join("\t"));
};

let api;
try { api = await import(process.env.JS_INDEX); } catch (e) {
  // the module must load with the library it wraps
  console.error("cannot load the module: " + (e && e.stack)); process.exit(2);
}
const { Spot, libspotVersion, libspotError, spotSize, NORMAL, EXCESS, ANOMALY } = api;
const heap = globalThis.__heap;
const rheap = new Heap("reference", fail);
const ref = await instantiate(process.env.WASM_REF, rheap);
ref.ref_setup();
const rcPtr = rheap.malloc(8), outPtr = rheap.malloc(19 * 8), msgPtr = rheap.malloc(512);
rheap.base = rheap.top;
const baseline = heap.live.size;

// deterministic random numbers
let st = 0n;
const seedRng = (...a) => { st = BigInt("0x" + crypto.createHash("sha1").update(a.join("/")).digest("hex").slice(0, 16)); };
const u64 = () => { st = (st + 0x9e3779b97f4a7c15n) & 0xffffffffffffffffn; let z = st; z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & 0xffffffffffffffffn; z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & 0xffffffffffffffffn; return z ^ (z >> 31n); };
const unit = () => Number(u64() >> 11n) / 2 ** 53;
const int = (n) => Math.floor(unit() * n);
const pick = (a) => a[int(a.length)];
const gauss = () => Math.sqrt(-2 * Math.log(1 - unit())) * Math.cos(2 * Math.PI * unit());

class Ref {
  constructor(c) {
    this.p = ref.ref_new(c.q, c.low ?? 0, c.discardAnomalies ?? 1, c.level ?? 0.98, c.maxExcess ?? 500, rcPtr);
    this.rc = new DataView(ref.memory.buffer).getInt32(rcPtr, true);
  }
  fit(a) {
    const p = rheap.malloc(a.length * 8);
    new Uint8Array(ref.memory.buffer).set(new Uint8Array(a.slice().buffer), p);
    const rc = ref.ref_fit(this.p, p, a.length);
    rheap.free(p);
    return rc;
  }
  step(x) { return ref.ref_step(this.p, x); }
  quantile(x) { return ref.ref_quantile(this.p, x); }
  probability(x) { return ref.ref_probability(this.p, x); }
  thresholds() { ref.ref_get(this.p, outPtr); const d = new DataView(ref.memory.buffer); return [d.getFloat64(outPtr + 32, true), d.getFloat64(outPtr + 40, true)]; }
  del() { if (this.p) ref.ref_del(this.p); }
}
const refMessage = (code) => {
  const b = new Uint8Array(ref.memory.buffer);
  b.fill(0, msgPtr, msgPtr + 512);
  ref.ref_error(code, msgPtr, 256);
  let e = msgPtr; while (b[e]) e++;
  return new TextDecoder().decode(b.slice(msgPtr, e));
};
const attempt = (f) => { try { return { v: f() }; } catch (e) { return { e }; } };
const sameNum = (a, b) => Object.is(a, b) || a === b;

// the outcome of one call of the class against the C function's
function agree(what, got, rc, digest) {
  evals++;
  if (rc < 0) {
    count(what + ".error");
    const msg = refMessage(-rc);
    if (!got.e) return fail(what + "-error-not-thrown", `C reports ${rc}, the method returned ${got.v}`);
    if (!(got.e instanceof Error) || got.e.message !== msg) return fail(what + "-error-message", `C reports ${rc} "${msg}", thrown: ${got.e}`);
  } else {
    count(what);
    if (got.e) return fail(what + "-unexpected-throw", `C returns ${rc}, thrown: ${got.e && got.e.stack}`);
    if (!sameNum(got.v, rc)) return fail(what + "-differs", `C ${rc}, class ${got.v}`);
  }
  digest?.update(what[0] + rc);
}
function thresholds(s, r) {
  evals++;
  const [t, z] = r.thresholds();
  const a = attempt(() => s.excess_threshold()), b = attempt(() => s.anomaly_threshold());
  if (a.e || !sameNum(a.v, t)) fail("excess_threshold-differs", `C ${t}, class ${a.e ?? a.v}`);
  if (b.e || !sameNum(b.v, z)) fail("anomaly_threshold-differs", `C ${z}, class ${b.e ?? b.v}`);
}
const sources = {
  gauss: () => gauss(), expo: () => -Math.log(1 - unit()), unif: () => unit(), heavy: () => (1 - unit()) ** -0.4, ints: () => int(40), tiny: () => gauss() * 1e-8, big: () => 1e9 + gauss() * 1e6, few: () => pick([0, 1, 1, 2, 5]), cst: () => 3,
};
function config() {
  const c = { q: pick([1e-2, 1e-3, 1e-4, 1e-6, 5e-3, unit() * 0.01]) };
  if (int(3)) c.low = int(2);
  if (int(3)) c.discardAnomalies = int(2);
  if (int(3)) c.level = pick([0.5, 0.8, 0.9, 0.95, 0.98, 0.985]);
  if (int(3)) c.maxExcess = pick([1, 2, 5, 20, 100, 500, 1000, 1000, int(12) ? 50 : 20000]);
  if (c.q >= 1 - (c.level ?? 0.98)) c.q = (1 - (c.level ?? 0.98)) / 2;
  return c;
}
function badConfig() {
  const c = config();
  switch (int(7)) {
    case 0: c.q = pick([0, -1, 1, 2, NaN, Infinity, 0.9]); break;
    case 1: c.level = pick([0, 1, -0.5, 2, NaN, Infinity]); break;
    case 2: c.maxExcess = 0; break;
    case 3: c.maxExcess = pick([0x20000000, 0x7fffffff, 0xffffffff, 0x10000000]); break;
    case 4: delete c.q; c.q = undefined; break;
    case 5: c.level = 0.99; c.q = 0.01 + unit() * 0.5; break;
    default: c.q = NaN; c.level = NaN;
  }
  return c;
}
// the same values behind various array views
function view(vals) {
  const n = vals.length;
  switch (int(6)) {
    case 0: return Float64Array.from(vals);
    case 1: { const b = new Float64Array(n + 50).fill(1e7); b.set(vals, 20); return b.subarray(20, 20 + n); }
    case 2: { const ab = new ArrayBuffer(8 * (n + 7)); const a = new Float64Array(ab, 24, n); a.set(vals); return a; }
    case 3: { const b = new Float64Array(3 * n + 9).fill(NaN); b.set(vals, 2 * n); return b.subarray(2 * n, 3 * n); }
    case 4: { const b = new Float64Array(n + 1).fill(-5e5); b.set(vals, 0); return b.subarray(0, n); }
    default: { const sb = new Float64Array(new SharedArrayBuffer(8 * (n + 4))).fill(9); sb.set(vals, 4); return sb.subarray(4); }
  }
}
function data(src, hostile) {
  const n = int(40) ? pick([0, 1, 3, 4, 5, 20, 200, 1000, 1000, 1500, 2000, 4000]) : pick([8191, 8192, 8193, 20000, 40000, 70000]);
  const f = sources[src];
  const a = Array.from({ length: n }, f);
  if (hostile && n) {
    const k = pick([1, 1, 1e-300, 1e300, -1e150, 2 ** -1040]);
    if (k !== 1) for (let i = 0; i < n; i++) a[i] *= k;
    for (let j = pick([1, 1, 3]); j > 0; j--) a[int(n)] = pick([NaN, Infinity, -Infinity, 1e300, 1.7976931348623157e308, 5e-324, -0, 2 ** 53 + 2, -1]);
  }
  return a;
}
const balanced = (what, live) => {
  evals++;
  if (heap.live.size !== live) fail("heap-block-leaked", `${what}: ${heap.live.size} live blocks, expected ${live}`);
};

class Pair {
  constructor(c) { this.c = c; this.s = new Spot(c); this.r = new Ref(c); this.src = pick(Object.keys(sources)); this.fitted = false; }
  fit(d) {
    const live = heap.live.size;
    const vals = data(this.src, int(8) === 0), a = view(vals), before = a.slice();
    const got = attempt(() => this.s.fit(a)), rc = this.r.fit(Float64Array.from(vals));
    agree("fit", got, rc, d);
    if (a.some((v, i) => !sameNum(v, before[i]))) fail("fit-modifies-data", "the caller's array changed");
    balanced("fit", live);
    thresholds(this.s, this.r);
    if (rc === 0) this.fitted = true;
  }
  step(d) {
    const live = heap.live.size, [t, z] = this.r.thresholds();
    let x = sources[this.src]();
    switch (int(12)) { case 0: x = t; break; case 1: x = z; break; case 2: x = t + (z - t) * unit(); break; case 3: x = z + (z - t) * unit(); break; case 4: if (!int(4)) x = pick([NaN, Infinity, -Infinity, 1.7976931348623157e308, -1e308, 5e-324, -0, 2 ** 53]); }
    const got = attempt(() => this.s.step(x)), rc = this.r.step(x);
    agree("step", got, rc, d);
    if (rc >= 0) count("verdict." + rc);
    balanced("step", live);
  }
  query(d) {
    const live = heap.live.size, [t, z] = this.r.thresholds();
    const x = pick([z, t, t + (z - t) * unit(), z + Math.abs(z), 0, NaN, Infinity]), q = pick([1e-3, 1e-5, this.c.q, unit(), 0, 1, NaN]);
    const a = attempt(() => this.s.quantile(q)), b = this.r.quantile(q);
    evals += 2; count("quantile"); count("probability");
    if (a.e || !sameNum(a.v, b)) fail("quantile-differs", `quantile(${q}): C ${b}, class ${a.e ?? a.v}`);
    const g = attempt(() => this.s.probability(x)), h = this.r.probability(x);
    if (g.e || !sameNum(g.v, h)) fail("probability-differs", `probability(${x}): C ${h}, class ${g.e ?? g.v}`);
    balanced("query", live);
    d.update(String(b));
  }
}

async function settle(done, rounds) {
  for (let i = 0; i < rounds; i++) {
    globalThis.gc();
    await new Promise((r) => setTimeout(r, i < 20 ? 0 : 5));
    if (done()) return true;
  }
  return done();
}

function lockstep() {
  const d = crypto.createHash("sha1");
  const pairs = [];
  const k = 1 + int(3);
  for (let i = 0; i < k; i++) {
    const before = heap.live.size;
    pairs.push(new Pair(config()));
    if (heap.live.size < before + 1) fail("object-without-memory", `constructor left ${heap.live.size - before} blocks`);
  }
  if (int(3) === 0) for (const p of pairs) thresholds(p.s, p.r);
  for (const p of pairs) p.fit(d);
  if (int(3) === 0) for (const p of pairs) p.fit(d);
  const n = 30 + int(TIER === "thorough" ? 800 : 300);
  for (let i = 0; i < n; i++) {
    const p = pick(pairs), w = int(40);
    if (w === 0) p.fit(d);
    else if (w < 4) p.query(d);
    else if (w === 4) { const b = heap.malloc(pick([10, 70000, 300000])); heap.free(b); count("heap-growth-request"); }
    else { p.step(d); thresholds(p.s, p.r); }
  }
  for (const p of pairs) p.r.del();
  const h = d.digest("hex").slice(0, 16);
  if (pairs.some((p) => p.fitted)) distinct.add(h);
  if (samples.length < 3) samples.push({ mode, configs: pairs.map((p) => p.c), sources: pairs.map((p) => p.src), steps: n });
}

function refusals() {
  for (let i = 0; i < 12; i++) {
    const c = int(6) ? badConfig() : config();
    const live = heap.live.size;
    const r = new Ref({ ...c, q: Number(c.q) });
    const got = attempt(() => new Spot(c));
    evals++;
    if (r.rc < 0) {
      count("constructor.refused");
      const msg = refMessage(-r.rc);
      if (!got.e) fail("constructor-error-not-thrown", JSON.stringify(c));
      else if (!(got.e instanceof Error) || got.e.message !== msg) fail("constructor-error-message", `"${msg}" expected, ${got.e}`);
      balanced("refused constructor", live);
      distinct.add("refused" + JSON.stringify(c));
    } else {
      count("constructor");
      if (got.e) fail("constructor-unexpected-throw", `${JSON.stringify(c)}: ${got.e}`);
      r.del();
    }
  }
}

async function collected() {
  const n = 4 + int(12), refs = [];
  const kept = [];
  const live0 = heap.live.size, frees0 = heap.frees;
  (function make() {
    for (let i = 0; i < n; i++) {
      const c = int(5) ? config() : badConfig();
      const before = new Set(heap.live.keys());
      const got = attempt(() => new Spot(c));
      if (got.e) { count("constructor.refused"); continue; }
      const s = got.v, own = [...heap.live.keys()].filter((p) => !before.has(p));
      if (int(3)) attempt(() => s.fit(Float64Array.from({ length: 1000 }, gauss)));
      if (int(2)) attempt(() => s.step(NaN));
      for (let j = 0; j < 20; j++) attempt(() => s.step(gauss()));
      if (int(5) === 0) kept.push({ s, own }); else refs.push({ w: new WeakRef(s), own });
    }
  })();
  // let the jobs end so that the weak references can be cleared
  await settle(() => refs.every((r) => !r.w.deref()), 60);
  const gone = refs.filter((r) => !r.w.deref());
  await settle(() => gone.every((r) => r.own.every((p) => !heap.live.has(p))), 400);
  for (const r of gone) {
    evals++; count("object.collected");
    if (r.own.some((p) => heap.live.has(p))) fail("collected-object-not-released", `${r.own.filter((p) => heap.live.has(p)).length} of ${r.own.length} blocks still live`);
  }
  for (const k of kept) {
    evals++; count("object.kept");
    if (k.own.some((p) => !heap.live.has(p))) fail("live-object-released", "a block of a reachable object was released");
    attempt(() => k.s.step(1));
  }
  if (gone.length) distinct.add("collected" + cur + "/" + gone.length);
  if (samples.length < 5) samples.push({ mode, created: n, collected: gone.length, kept: kept.length, frees: heap.frees - frees0, live_before: live0 });
}

// one allocation fails: the call throws or succeeds, and nothing else breaks
function faults() {
  const c = config();
  const arm = (k, f) => { heap.failAt = k; const r = attempt(f); const hit = heap.failAt < 0; heap.failAt = -1; evals++; count(hit ? "fault.hit" : "fault.not-reached"); heap.check(); return { ...r, hit }; };
  for (let k = 0; k < 4; k++) {
    const live = heap.live.size;
    const r = arm(k, () => new Spot(c));
    if (k === 0 && r.hit && !r.e) fail("fault-constructor-ignored", "the structure could not be allocated, yet an object was returned");
    if (r.e) { if (!(r.e instanceof Error) || r.e instanceof WebAssembly.RuntimeError || r.e instanceof RangeError || r.e instanceof TypeError) fail("fault-constructor-crash", r.e && r.e.stack); balanced("constructor under fault", live); distinct.add("fault-ctor" + k); }
  }
  const p = new Pair(c);
  p.fit(crypto.createHash("sha1"));
  const live = heap.live.size;
  for (let k = 0; k < 3; k++) {
    const a = Float64Array.from({ length: 800 }, gauss);
    const t0 = p.r.thresholds();
    const r = arm(k, () => p.s.fit(a));
    if (r.e) {
      if (!(r.e instanceof Error) || r.e instanceof WebAssembly.RuntimeError || r.e instanceof RangeError || r.e instanceof TypeError) fail("fault-fit-crash", r.e && r.e.stack);
      if (k === 0 && r.hit) { const z = attempt(() => p.s.excess_threshold()).v; if (!sameNum(z, t0[0])) fail("fault-fit-changed-object", `excess threshold ${t0[0]} -> ${z}`); }
      distinct.add("fault-fit" + k);
    } else if (k === 0 && r.hit) fail("fault-fit-ignored", "the training data could not be copied, yet fit returned");
    if (!(k === 0 && r.hit)) p.r.fit(a);
    balanced("fit under fault", live);
  }
  for (let k = 0; k < 2; k++) { arm(k, () => p.s.step(NaN)); arm(k, () => libspotVersion()); arm(k, () => libspotError(1001)); balanced("messages under fault", live); }
  // a refusal whose message cannot be allocated either: still an Error, heap intact
  for (let k = 0; k < 3; k++) {
    const bad = pick([{ q: NaN }, { q: 0 }, { q: -1 }, { q: 2 }, { q: 1e-3, level: NaN }, { q: 1e-3, level: 1 }, { q: 1e-3, level: -0.5 }]), short = Float64Array.from({ length: int(5) }, gauss);
    for (const [what, f] of [["constructor", () => new Spot(bad)], ["fit", () => p.s.fit(short)]]) {
      const r = arm(k, f);
      if (!r.e) fail("fault-refusal-lost", `${what} accepts what the library refuses once an allocation fails`);
      else if (!(r.e instanceof Error) || r.e instanceof WebAssembly.RuntimeError || r.e instanceof RangeError || r.e instanceof TypeError) fail("fault-refusal-crash", r.e && r.e.stack);
      if (what === "fit" && !(k === 0 && r.hit)) p.r.fit(short);
      distinct.add("fault-refusal-" + what + k);
    }
  }
  thresholds(p.s, p.r);
  { const a = Float64Array.from({ length: 900 }, gauss); p.s.fit(a); p.r.fit(a); thresholds(p.s, p.r); }
  const d = crypto.createHash("sha1");
  for (let i = 0; i < 30; i++) p.step(d);
  p.r.del();
}

function constants() {
  const live = heap.live.size;
  evals += 4;
  if (NORMAL !== 0 || EXCESS !== 1 || ANOMALY !== 2) fail("constants", `${NORMAL} ${EXCESS} ${ANOMALY}`);
  if (spotSize() !== ref.ref_sizeof()) fail("spotSize-differs", `C ${ref.ref_sizeof()}, class ${spotSize()}`);
  for (let i = 0; i < 5; i++) {
    const v = libspotVersion();
    if (process.env.EXPECT_VERSION && v !== process.env.EXPECT_VERSION) fail("version-differs", `${JSON.stringify(v)} instead of ${process.env.EXPECT_VERSION}`);
    for (const code of [0, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 999, 5000]) {
      evals++;
      const m = libspotError(code), e = refMessage(code);
      if (m !== e) fail("libspotError-differs", `code ${code}: ${JSON.stringify(m)} instead of ${JSON.stringify(e)}`);
    }
  }
  count("messages", 50);
  balanced("messages", live);
  // an object that was never fitted
  const r = new Ref({ q: 1e-3 }), s = new Spot({ q: 1e-3 });
  thresholds(s, r);
  r.del();
  distinct.add("constants");
}

for (cur = SHARD; cur < CASES; cur += NSH) {
  seedRng(SEED, cur);
  const slot = (cur + Math.floor(cur / 16)) % 16;
  mode = slot === 0 ? "collected" : slot === 1 ? "faults" : slot === 2 ? "constants" : slot < 5 ? "refusals" : "lockstep";
  if (mode === "collected") await collected();
  else if (mode === "faults") faults();
  else if (mode === "constants") constants();
  else if (mode === "refusals") refusals();
  else lockstep();
  count("cases." + mode);
  heap.check(); rheap.recycle();
  if (cur % (8 * NSH) === SHARD % (8 * NSH) || heap.live.size > 60 || heap.top > 3e7) {
    await settle(() => heap.live.size <= baseline, 12);
    heap.recycle();
  }
}
// everything is out of reach now
await settle(() => heap.live.size <= baseline, 300);
heap.check();
evals++;
count("heap.allocations", heap.allocs); count("heap.releases", heap.frees); count("heap.growths", heap.grown); count("heap.max-live", heap.maxLive);
count("wasm.calls", globalThis.__calls.n);
count("heap.still-live-at-end", heap.live.size - baseline);
// after hundreds of collections a few may linger, not a part of all the objects that were made
if (heap.live.size - baseline > 16) fail("objects-never-released", `${heap.live.size - baseline} blocks still live although no object is reachable`);
finish();
process.exit(0);
