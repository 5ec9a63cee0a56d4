// A monitored WebAssembly heap: every block has red zones, fresh blocks hold
// garbage, released blocks are poisoned and never reused within a case.
import fs from "fs";
const RZ = 64, CAN = 0xca, FRESH = 0xa5, DEAD = 0xdd;

export class Heap {
  constructor(name, report) {
    this.name = name;
    this.report = report;
    this.live = new Map();   // address -> size
    this.dead = new Map();
    this.allocs = 0; this.frees = 0; this.failAt = -1; this.failed = 0; this.maxLive = 0; this.grown = 0;
  }
  bytes() { return new Uint8Array(this.memory.buffer); }
  attach(memory, base) {
    this.memory = memory;
    this.base = (base + 63) & ~63;
    this.top = this.base;
    this.low = this.bytes().slice(0, 1024);
  }
  ensure(end) {
    const have = this.memory.buffer.byteLength;
    if (end > have) { this.memory.grow(Math.ceil((end - have) / 65536)); this.grown++; }
  }
  malloc(n) {
    n = n >>> 0;
    this.allocs++;
    if (this.failAt >= 0 && this.failAt-- === 0) { this.failed++; return 0; }
    if (n > 1 << 26) { this.failed++; return 0; }
    const p = this.top + RZ;
    const end = (p + n + RZ + 63) & ~63;
    this.ensure(end);
    const b = this.bytes();
    b.fill(CAN, this.top, p);
    b.fill(FRESH, p, p + n);
    b.fill(CAN, p + n, end);
    this.top = end;
    this.live.set(p, { n, end });
    if (this.live.size > this.maxLive) this.maxLive = this.live.size;
    return p;
  }
  checkBlock(p, e, b) {
    for (let i = p - RZ; i < p; i++) if (b[i] !== CAN) return this.report("heap-write-before-block", `${this.name}: byte ${i - p} of block of ${e.n} bytes`);
    for (let i = p + e.n; i < e.end; i++) if (b[i] !== CAN) return this.report("heap-write-after-block", `${this.name}: byte +${i - p} of block of ${e.n} bytes`);
  }
  free(p) {
    p = p >>> 0;
    this.frees++;
    if (p === 0) return;
    const e = this.live.get(p);
    if (!e) {
      this.report(this.dead.has(p) ? "double-free" : "free-of-unknown-address", `${this.name}: free(${p})`);
      return;
    }
    const b = this.bytes();
    this.checkBlock(p, e, b);
    b.fill(DEAD, p, p + e.n);
    this.live.delete(p);
    this.dead.set(p, e);
  }
  check() {
    const b = this.bytes();
    for (const [p, e] of this.live) this.checkBlock(p, e, b);
    for (const [p, e] of this.dead) {
      this.checkBlock(p, e, b);
      for (let i = p; i < p + e.n; i++) if (b[i] !== DEAD) { this.report("heap-write-after-free", `${this.name}: byte +${i - p} of released block of ${e.n} bytes`); break; }
    }
    for (let i = 0; i < this.low.length; i++) if (b[i] !== this.low[i]) { this.report("heap-write-at-null", `${this.name}: address ${i}`); this.low = b.slice(0, 1024); break; }
    const last = Math.min(this.top + 4096, b.length);
    for (let i = this.top; i < last; i++) if (b[i] !== 0) { this.report("heap-write-past-top", `${this.name}: address ${i - this.top} past the last block`); b.fill(0, this.top, last); break; }
  }
  // forget the poisoned blocks (between cases)
  recycle() {
    this.check();
    const old = this.top;
    let top = this.base;
    for (const [, e] of this.live) if (e.end > top) top = e.end;
    for (const [p, e] of [...this.dead]) if (p > top) this.dead.delete(p);
    this.bytes().fill(0, top, Math.min(old + 4096, this.memory.buffer.byteLength));
    this.top = top;
  }
}

export async function instantiate(file, heap) {
  const env = new Proxy({ malloc: (n) => heap.malloc(n), free: (p) => heap.free(p), calloc: (a, b) => { const p = heap.malloc(a * b); if (p) heap.bytes().fill(0, p, p + a * b); return p; }, realloc: (p, n) => { const q = heap.malloc(n); if (q && p) { const e = heap.live.get(p); heap.bytes().copyWithin(q, p, p + Math.min(n, e ? e.n : 0)); heap.free(p); } return q; }, printf: () => 0, puts: () => 0 }, {
    get: (t, k) => t[k] ?? (() => { throw new Error("host function " + String(k) + " is not provided"); }),
    has: () => true,
  });
  const mod = await WebAssembly.compile(fs.readFileSync(file));
  const imports = {};
  for (const i of WebAssembly.Module.imports(mod)) (imports[i.module] ??= {})[i.name] = env[i.name];
  const inst = await WebAssembly.instantiate(mod, imports);
  heap.attach(inst.exports.memory, inst.exports.__heap_base.value);
  return inst.exports;
}
