// Concrete execution of the same contract units against the real code: seeded inputs or solver-model inputs.
export class Violation extends Error { constructor(label, info) { super("contract violated: " + label + (info ? " — " + info : "")); this.label = label; this.info = info; } }
class Skip extends Error {}
const real = { setTimeout: globalThis.setTimeout, setImmediate: globalThis.setImmediate, Date: globalThis.Date, clearTimeout: globalThis.clearTimeout };
// ---- types
const mk = (ty) => ({ ty });
export const T = {
  str: mk({ k: "str" }), num: mk({ k: "num" }), bool: mk({ k: "bool" }), any: mk({ k: "any" }), undef: mk({ k: "undef" }), nul: mk({ k: "null" }), int: mk({ k: "int" }),
  strOf: (o) => mk({ k: "str", ...o }), range: (min, max) => mk({ k: "int", min, max }), numRange: (min, max) => mk({ k: "num", min, max }), lit: (...v) => mk({ k: "lit", v }),
  or: (...as) => mk({ k: "union", of: as.map((a) => a.ty) }), opt: (a) => mk({ k: "union", of: [a.ty, { k: "undef" }] }), nullable: (a) => mk({ k: "union", of: [a.ty, { k: "undef" }, { k: "null" }] }),
  obj: (p) => mk({ k: "obj", props: Object.fromEntries(Object.entries(p).map(([k, v]) => [k, v.ty])) }), open: (p) => mk({ k: "obj", open: true, props: Object.fromEntries(Object.entries(p).map(([k, v]) => [k, v.ty])) }),
  arr: (a, o = {}) => mk({ k: "arr", of: a.ty, minLen: o.min, maxLen: o.max }), dict: (a) => mk({ k: "dict", of: a.ty }),
};
// ---- random
function rng(seed) { let s = (seed * 2654435761) >>> 0 || 1; return () => { s ^= s << 13; s >>>= 0; s ^= s >>> 17; s ^= s << 5; s >>>= 0; return s / 4294967296; }; }
const BASE = ["", "a", "b", "0", "1", "42", " ", "key", "value", "user-1", "a,b", "a=b", "x;y", "$&", "$1", "{{name}}", "langfuse", "langfuse-x", "Prod", "default", "ünï😀", "__proto__x", "null", "undefined", "true", "{}", "[]", "{\"a\":1}", "\"", "\\", "a.b", "a/b", "a b", "%20", "\n", "x".repeat(199), "x".repeat(200), "x".repeat(201), "y".repeat(40), "y".repeat(41), "z".repeat(500)];
function mkGen(r, pool) {
  const pick = (a) => a[Math.floor(r() * a.length)];
  const recent = [];
  const mutate = (s) => { const u = r(), i = Math.floor(r() * (s.length + 1)); return u < 0.15 ? s + "\n" + pick(BASE) : u < 0.25 ? pick(BASE) + "\n" + s : u < 0.35 ? s.toUpperCase() : u < 0.45 ? s.toLowerCase() : u < 0.55 ? s + s : u < 0.65 ? s.slice(0, i) : u < 0.75 ? s.slice(i) : u < 0.9 ? s.slice(0, i) + pick("a0_-. ,:;=$&%{}\"'/\\") + s.slice(i) : s + " "; };
  const str = (ty) => {
    for (let i = 0; i < 400; i++) {
      let s; const u = r();
      if (ty.pool && u < 0.45) s = pick(ty.pool);
      else if (ty.pool && u < 0.62) s = r() < 0.5 ? mutate(pick(ty.pool)) : pick(ty.pool) + pick("-_./:x1 ") + pick(["", "x", "b.c"]);
      else if (recent.length && r() < 0.14) { s = pick(recent); if (r() < 0.35) s = mutate(s); }
      else if (r() < 0.06) s = mutate(pick(ty.pool ?? (pool.strings.length ? pool.strings : BASE)));
      else if (u < 0.35) s = pick(BASE);
      else if (u < 0.55 && pool.strings.length) s = pick(pool.strings);
      else if (u < 0.62 && pool.strings.length) s = pick(pool.strings) + pick(BASE);
      else if (u < 0.67) s = pick(BASE) + pick(pool.strings.length ? pool.strings : BASE);
      else { const n = Math.floor(r() * 8); s = ""; for (let j = 0; j < n; j++) s += pick("abcxyz019_- .,:;{}[]$'\"/"); }
      if (ty.nonEmpty && !s) continue;
      if (ty.maxLen != null && s.length > ty.maxLen) continue;
      if (ty.re && !ty.re.test(s)) { if (i > 300 && ty.ex) return pick(ty.ex); continue; }
      recent.push(s);
      return s;
    }
    throw new Skip();
  };
  const num = (ty) => {
    let x; const u = r();
    if (u < 0.5) x = pick([0, 1, 2, 3, 5, 10, 100, -1, 200, 404, 429, 500]);
    else if (u < 0.75 && pool.numbers.length) x = pick(pool.numbers) + pick([-1, 0, 0, 1]);
    else x = Math.floor(r() * 1000) - 100;
    if (ty.k === "num" && r() < 0.2) x += pick([0.5, 0.25, -0.125]);
    if (ty.min !== undefined && ty.max !== undefined && (x < ty.min || x > ty.max)) x = ty.min + Math.floor(r() * (ty.max - ty.min + 1));
    if (ty.min !== undefined && x < ty.min) x = ty.min; if (ty.max !== undefined && x > ty.max) x = ty.max;
    return x;
  };
  const flat = (ty) => (ty.k === "union" ? ty.of.flatMap(flat) : [ty]);
  const gen = (ty, d) => {
    switch (ty.k) {
      case "str": return str(ty);
      case "num": case "int": return num(ty);
      case "bool": return r() < 0.5;
      case "undef": return undefined;
      case "null": return null;
      case "lit": return pick(ty.v);
      case "union": return gen(pick(flat(ty)), d);
      case "obj": { const o = {}; for (const [k, p] of Object.entries(ty.props)) { const v = gen(p, d + 1); if (v !== undefined || r() < 0.3) o[k] = v; } if (ty.open) for (let i = Math.floor(r() * 3); i > 0; i--) { const k = str({ k: "str", maxLen: 40 }); if (!(k in o) && k !== "__proto__") o[k] = gen({ k: "any" }, d + 1); } return o; }
      case "dict": { const o = {}; for (let i = Math.floor(r() * 4); i > 0; i--) { const k = str({ k: "str", maxLen: 220 }); if (k !== "__proto__") o[k] = gen(ty.of, d + 1); } return o; }
      case "arr": { const lo = ty.minLen ?? 0, hi = ty.maxLen ?? Math.max(lo, r() < 0.03 && d === 0 ? 120 : r() < 0.1 && d === 0 ? 25 : 4); const n = lo + Math.floor(r() * (hi - lo + 1)); return Array.from({ length: n }, () => gen(ty.of, d + 1)); }
      case "any": { const u = r(); if (d > 2 || u < 0.62) return gen(pick([{ k: "str" }, { k: "str" }, { k: "num" }, { k: "bool" }, { k: "undef" }, { k: "null" }]), d); if (u < 0.8) return gen({ k: "arr", of: { k: "any" }, maxLen: 3 }, d + 1); return gen({ k: "dict", of: { k: "any" } }, d + 1); }
    }
    throw new Error("gen " + ty.k);
  };
  return gen;
}
const dec = (v) => (v && typeof v === "object" ? (v.$undef ? undefined : v.$fn ? () => {} : Array.isArray(v) ? v.map(dec) : Object.fromEntries(Object.entries(v).map(([k, x]) => [k, dec(x)]))) : v);
const encv = (v, d = 0) => (v === undefined ? { $undef: true } : typeof v === "function" ? { $fn: true } : v === null || typeof v !== "object" ? (typeof v === "bigint" ? String(v) : v) : d > 8 ? "…" : Array.isArray(v) ? v.map((x) => encv(x, d + 1)) : Object.fromEntries(Object.entries(v).map(([k, x]) => [k, encv(x, d + 1)])));
export function deepEq(a, b, seen = new Map()) {
  if (Object.is(a, b)) return true;
  if (a === b) return true;
  if (typeof a !== "object" || typeof b !== "object" || a === null || b === null) return false;
  if (seen.get(a) === b) return true; seen.set(a, b);
  if (a instanceof real.Date || b instanceof real.Date) return a instanceof real.Date && b instanceof real.Date && a.getTime() === b.getTime();
  if (a instanceof Error || b instanceof Error) return false;
  if (ArrayBuffer.isView(a) || ArrayBuffer.isView(b)) return ArrayBuffer.isView(a) && ArrayBuffer.isView(b) && Buffer.from(a.buffer, a.byteOffset, a.byteLength).equals(Buffer.from(b.buffer, b.byteOffset, b.byteLength));
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => deepEq(x, b[i], seen));
  if (a instanceof Promise || b instanceof Promise) return false;
  const ks = new Set([...Object.keys(a), ...Object.keys(b)]);
  for (const k of ks) if (!deepEq(a[k], b[k], seen)) return false;
  return true;
}
// ---- virtual time
let vt, timers, tid, base, idleTimers = true;
class VDate extends real.Date { constructor(...a) { if (a.length) super(...a); else super(VDate.now()); } static now() { return base + vt; } }
function resetTime() { vt = 0; timers = []; tid = 1; base = 1700000000000; }
function addTimer(f, ms, as, interval) { const h = { id: tid++, unref() { return h; }, ref() { return h; }, hasRef: () => true, [Symbol.toPrimitive]() { return h.id; } }; timers.push({ h, f, as, at: vt + (Number(ms) || 0), ms: Number(ms) || 0, interval, seq: tid }); return h; }
function install() {
  globalThis.setTimeout = (f, ms, ...as) => addTimer(f, ms, as, false);
  globalThis.setInterval = (f, ms, ...as) => addTimer(f, ms, as, true);
  globalThis.setImmediate = (f, ...as) => addTimer(f, 0, as, false);
  globalThis.clearTimeout = globalThis.clearInterval = globalThis.clearImmediate = (h) => { timers = timers.filter((t) => t.h !== h && t.h.id !== h); };
  globalThis.Date = VDate;
  // same results as WebCrypto, without a detour through the thread pool (keeps runs deterministic)
  const names = { "SHA-1": "sha1", "SHA-256": "sha256", "SHA-384": "sha384", "SHA-512": "sha512" };
  Object.defineProperty(globalThis.crypto.subtle, "digest", { configurable: true, value: async (alg, data) => { const h = createHash(names[alg?.name ?? alg]); h.update(ArrayBuffer.isView(data) ? data : new Uint8Array(data)); const b = h.digest(); return b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength); } });
}
let act = 0, busy = 0; // the driver fires timers only while the unit itself is not draining or advancing time
const flush = async () => { for (let i = 0; i < 3; i++) await new Promise((r) => real.setImmediate(r)); };
function fireNext(limit = Infinity) {
  const due = timers.filter((t) => t.at <= limit); if (!due.length) return false;
  due.sort((a, b) => a.at - b.at || a.seq - b.seq); const e = due[0];
  timers = timers.filter((t) => t !== e); if (e.at > vt) vt = e.at;
  if (e.interval) timers.push({ ...e, at: e.at + Math.max(1, e.ms) });
  e.f(...e.as); return true;
}
function conforms(v, ty) {
  switch (ty.k) {
    case "any": return true;
    case "str": return typeof v === "string" && !(ty.nonEmpty && !v) && !(ty.maxLen != null && v.length > ty.maxLen) && !(ty.re && !ty.re.test(v));
    case "num": return typeof v === "number" && !(v < ty.min) && !(v > ty.max);
    case "int": return Number.isInteger(v) && !(v < ty.min) && !(v > ty.max);
    case "bool": return typeof v === "boolean";
    case "undef": return v === undefined;
    case "null": return v === null;
    case "lit": return ty.v.includes(v);
    case "union": return ty.of.some((a) => conforms(v, a));
    case "arr": return Array.isArray(v) && v.length >= (ty.minLen ?? 0) && v.length <= (ty.maxLen ?? Infinity) && v.every((x) => conforms(x, ty.of));
    case "dict": return v !== null && typeof v === "object" && !Array.isArray(v) && Object.values(v).every((x) => conforms(x, ty.of));
    case "obj": return v !== null && typeof v === "object" && !Array.isArray(v) && Object.entries(ty.props).every(([k, p]) => conforms(v[k], p));
  }
  return false;
}
// ---- $
function make$(gen, values, log, covers) {
  let fr = 0;
  const draw = (name, ty) => {
    if (name in log) return log[name].v;
    let v;
    if (values && name in values && conforms(dec(values[name]), ty.ty)) v = dec(values[name]);
    else v = gen(ty.ty, 0);
    log[name] = { v, e: encv(v) };
    return v;
  };
  const $ = {
    symbolic: false,
    in: draw, fresh: (name, ty) => draw(name + "!" + fr++, ty),
    assume: (c) => { if (!c) throw new Skip(); },
    assert: (label, c) => { $.count++; if (!c) throw new Violation(label); },
    same: (label, a, b) => { $.count++; if (!deepEq(a, b)) { let s; try { s = JSON.stringify({ actual: encv(a), expected: encv(b) }).slice(0, 1500); } catch { s = ""; } throw new Violation(label, s); } },
    cover: (l) => { covers[l] = (covers[l] || 0) + 1; }, expectCovers: () => {},
    fail: (label) => { throw new Violation(label); },
    each: (a, f) => { let i = 0; for (const x of a) f(x, i++); },
    eachKey: (o, f) => { for (const [k, v] of Object.entries(o)) f(k, v); },
    drain: async () => { act++; busy++; try { await flush(); } finally { busy--; } },
    advance: async (ms) => { act++; busy++; try { const end = vt + ms; await flush(); while (fireNext(end)) await flush(); vt = end; await flush(); } finally { busy--; } },
    timers: () => timers.length, now: () => VDate.now(),
    deferred: () => { const o = {}; o.promise = new Promise((a, b) => { o.resolve = a; o.reject = b; }); return o; },
    stateOf: (p) => { if (!(p instanceof Promise)) return "none"; const s = process.binding ? undefined : undefined; return utilState(p); },
    count: 0,
  };
  return $;
}
import util from "node:util";
import { openSync, writeSync } from "node:fs";
import { createHash } from "node:crypto";
function utilState(p) { const s = util.inspect(p, { depth: 0 }); return s.includes("<pending>") ? "pending" : s.includes("<rejected>") ? "rejected" : "fulfilled"; }
let rejections = [];
process.on("unhandledRejection", (e) => { rejections.push(e); });
process.on("uncaughtException", (e) => { rejections.push(e); });
export async function runOne(unit, seed, values, pool) {
  const log = {}, covers = {};
  const gen = mkGen(rng(seed), pool);
  const $ = make$(gen, values, log, covers);
  resetTime(); rejections = []; act = busy = 0;
  const opts = typeof unit === "function" ? {} : unit;
  const fn = typeof unit === "function" ? unit : unit.run;
  let done = false, err = null;
  const p = (async () => { await fn($, T); })().then(() => { done = true; }, (e) => { done = true; err = e; });
  let idle = 0;
  const t0 = real.Date.now();
  while (!done) {
    const a0 = act;
    await flush();
    if (done) break;
    if (busy || act !== a0) continue;
    if (fireNext()) { idle = 0; continue; }
    if (idle > 15) await new Promise((r) => real.setTimeout(r, 2));
    if (++idle > 120) { err = new Violation("every awaited promise settles"); break; }
    if (real.Date.now() - t0 > 20000) { err = new Violation("unit terminates"); break; }
  }
  await flush();
  const inputs = Object.fromEntries(Object.entries(log).map(([k, x]) => [k, x.e]));
  if (err instanceof Skip) return { skip: true };
  if (err instanceof Violation) return { label: err.label, message: err.message, inputs };
  if (err) return { label: "no unexpected exception", message: String(err && err.stack ? err.stack : err).slice(0, 1500), inputs };
  if (opts.noUnhandled !== false && rejections.length) return { label: "no unhandled rejection", message: String(rejections[0]?.stack ?? rejections[0]).slice(0, 800), inputs };
  return { ok: true, count: $.count, covers, inputs };
}
export async function main(units, cfg) {
  install();
  for (const m of ["log", "error", "warn", "info", "debug"]) console[m] = () => {};
  const out = {};
  const only = cfg.units;
  // what is running now, for the parent process: a run that never ends is recognised by it
  let fd; try { if (cfg.progress) fd = openSync(cfg.progress, "w"); } catch {}
  const mark = (o) => { if (fd !== undefined) writeSync(fd, JSON.stringify({ ...o, at: real.Date.now() }).padEnd(400) + "\n", 0); };
  for (const [name, unit] of Object.entries(units)) {
    if (only && !only.includes(name)) continue;
    const res = { runs: 0, skips: 0, checks: 0, violations: [], covers: {} };
    const t0 = real.Date.now();
    const byLabel = {};
    const note = (r, src) => { if (!byLabel[r.label]) { byLabel[r.label] = 1; res.violations.push({ ...r, ...src }); } };
    for (const values of cfg.models?.[name] ?? []) { mark({ unit: name, model: cfg.models[name].indexOf(values) }); const r = await runOne(unit, cfg.seed, values, cfg.pool); if (r.skip) continue; res.runs++; if (!r.ok) note(r, { source: "solver-model" }); else res.checks += r.count; }
    const n = cfg.n < 0 ? 0 : (typeof unit === "object" && unit.runs) ? Math.ceil(unit.runs * (cfg.scale ?? 1)) : cfg.n;
    if (cfg.only !== undefined) { mark({ unit: name, seed: cfg.only }); const r = await runOne(unit, cfg.only, null, cfg.pool); res.runs++; if (!r.ok && !r.skip) note(r, { source: "seeded", seed: cfg.only }); }
    for (let i = 0; i < n; i++) {
      if (real.Date.now() - t0 > cfg.msPerUnit) break;
      const s = cfg.seed * 1000003 + i * 7919 + 1;
      mark({ unit: name, seed: s });
      const r = await runOne(unit, s, null, cfg.pool);
      if (r.skip) { res.skips++; continue; }
      res.runs++;
      if (r.ok) { res.checks += r.count; for (const k in r.covers) res.covers[k] = (res.covers[k] || 0) + r.covers[k]; }
      else { note(r, { source: "seeded", seed: s }); if (res.violations.length > 3) break; }
    }
    res.ms = real.Date.now() - t0;
    out[name] = res;
  }
  return out;
}
