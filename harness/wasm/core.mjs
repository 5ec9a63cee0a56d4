// stands for the boilerplate that emscripten generates (libspot.core.js)
import { Heap, instantiate } from "./heap.mjs";
export default async function loadWASM() {
  const heap = new Heap("js", (k, d) => globalThis.__report(k, d));
  const ex = await instantiate(process.env.WASM_LIB, heap);
  if (ex.main) ex.main(0, 0); else if (ex.__main_void) ex.__main_void(); else if (ex.__original_main) ex.__original_main();
  let log = globalThis.__calls = { n: 0 };
  const fn = (name) => {
    const f = ex[name];
    if (typeof f !== "function") throw new Error("no exported function " + name);
    return (...a) => { log.n++; return f(...a); };
  };
  const view = (C) => { let v = null; return () => { if (!v || v.buffer !== ex.memory.buffer) v = new C(ex.memory.buffer); return v; }; };
  const M = {
    ccall: (name, ret, types, args) => { const r = fn(name)(...(args ?? [])); return ret === "string" ? M.UTF8ToString(r) : ret === "boolean" ? Boolean(r) : ret ? r : undefined; },
    cwrap: (name, ret, types) => (...args) => M.ccall(name, ret, types, args),
    _malloc: (n) => heap.malloc(n),
    _free: (p) => heap.free(p),
    UTF8ToString: (p, max = 1 << 20) => { const b = heap.bytes(); let e = p; while (e < p + max && b[e]) e++; return new TextDecoder().decode(b.slice(p, e)); },
    getValue: (p, t = "i8") => { const d = new DataView(ex.memory.buffer); return t === "double" ? d.getFloat64(p, true) : t === "float" ? d.getFloat32(p, true) : t === "i8" ? d.getInt8(p) : t === "i16" ? d.getInt16(p, true) : d.getInt32(p, true); },
    setValue: (p, v, t = "i8") => { const d = new DataView(ex.memory.buffer); t === "double" ? d.setFloat64(p, v, true) : t === "float" ? d.setFloat32(p, v, true) : t === "i8" ? d.setInt8(p, v) : t === "i16" ? d.setInt16(p, v, true) : d.setInt32(p, v, true); },
  };
  for (const [k, C] of Object.entries({ HEAP8: Int8Array, HEAPU8: Uint8Array, HEAP16: Int16Array, HEAPU16: Uint16Array, HEAP32: Int32Array, HEAPU32: Uint32Array, HEAPF32: Float32Array, HEAPF64: Float64Array }))
    Object.defineProperty(M, k, { get: view(C), enumerable: true });
  for (const k of Object.keys(ex)) if (typeof ex[k] === "function" && !("_" + k in M)) M["_" + k] = fn(k);
  globalThis.__heap = heap;
  return M;
}
