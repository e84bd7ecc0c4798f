// Everything the platform has and the engine does not model is present as a stub that makes the unit unsupported when
// used: absence of a model must never look like absence of the feature (a TypeError or ReferenceError of the program).
import { protos, JObj } from "./heap.mjs";
import * as t from "./terms.mjs";
import { Unsupported } from "./core.mjs";
import { def } from "./builtins.mjs";
import { native, globals, hiddenSet, call, get } from "./interp.mjs";
const front = (o, e) => { o.store = { base: o.store.base, ents: [e, ...o.store.ents] }; };
const stubFn = (what) => native(what, function* () { throw new Unsupported(what + " is not modelled"); }, function* () { throw new Unsupported("new " + what + " is not modelled"); });
const has = (o, k) => { for (; o; o = o.proto) if (o.store.ents.some((e) => e.k === k)) return true; return false; };
const SKIP = new Set(["stackTraceLimit", "prepareStackTrace", "constructor", "prototype", "name", "length", "caller", "callee", "arguments", "toLocaleString"]);
function fill(o, real, what, accessors) {
  for (const k of Object.getOwnPropertyNames(real)) {
    if (SKIP.has(k) || k.startsWith("__") || has(o, k)) continue;
    const d = Object.getOwnPropertyDescriptor(real, k);
    if (typeof d.value === "function") front(o, { k, g: t.T, v: stubFn(what + "." + k), hidden: true });
    else if ("value" in d && (typeof d.value === "number" || typeof d.value === "boolean")) front(o, { k, g: t.T, v: d.value, hidden: true });
    else if ((d.get && accessors) || ("value" in d && d.value !== undefined && d.value !== null && accessors !== null)) front(o, { k, g: t.T, acc: { get: native("get " + k, function* () { throw new Unsupported(what + "." + k + " is not modelled"); }) }, hidden: true });
  }
}
// methods that are compositions of modelled ones
const via = (k, m) => def(protos.Array, k, function* (th, as) { const a = yield* call(yield* get(th, "slice"), th, []); yield* call(yield* get(a, m), a, as); return a; });
via("toSorted", "sort"); via("toReversed", "reverse"); via("toSpliced", "splice");
const IterProto = Object.getPrototypeOf(Object.getPrototypeOf([][Symbol.iterator]()));
const REAL = { Generator: IterProto };
for (const n of Object.keys(protos)) {
  const real = REAL[n] ?? globalThis[n]?.prototype;
  if (n === "Uint8Array") fill(protos[n], Object.getPrototypeOf(real), "Uint8Array.prototype", true);
  if (real) fill(protos[n], real, n + ".prototype", !["Function", "Object", "Symbol", "AbortSignal", "AbortController", "Headers", "URL"].includes(n));
}
// the engine's array iterators are arrays: the iterator helpers they lack
for (const k of ["toArray", "take", "drop", "next"]) if (!has(protos.Array, k)) front(protos.Array, { k, g: t.T, acc: { get: native("get " + k, function* () { throw new Unsupported("iterator helper " + k + " is not modelled"); }) }, hidden: true });
// names whose absence the verified code may test for are the host's own business (env.mjs decides them)
const HOST = new Set(["global", "self", "window", "navigator", "crypto", "localStorage", "Headers", "sessionStorage", "root", "GLOBAL", "require", "module", "exports", "gc"]);
for (const n of Object.getOwnPropertyNames(globalThis)) {
  const d = Object.getOwnPropertyDescriptor(globalThis, n);
  const c = globals.vars.get(n);
  if (c) { if (!c.lazy && c.v instanceof JObj && n !== "globalThis" && n !== "process" && "value" in d && (typeof d.value === "function" || (d.value && typeof d.value === "object"))) fill(c.v, d.value, n, false); continue; }
  if (HOST.has(n)) continue;
  if ("value" in d && typeof d.value === "function") {
    const f = stubFn(n);
    if (d.value.prototype) { const p = protos[n] ?? new JObj("Object", protos.Object); fill(p, d.value.prototype, n + ".prototype", true); f.store = hiddenSet(f.store, "prototype", p); }
    fill(f, d.value, n, true);
    globals.declare(n, f);
  } else if ("value" in d && d.value && typeof d.value === "object") { const o = new JObj("Object", protos.Object); fill(o, d.value, n, true); globals.declare(n, o); }
}
