// Host environment available to the verified code: timers, process, AsyncLocalStorage, fetch-style globals.
import * as t from "./terms.mjs";
import { S, set, assume, decide, freshTerm, Sym, Union, JSThrow, Unsupported, sortOf, termOf, mkNum, mkStr, mkBool, mapU, truthy, emptyStore, strictEq, toVal } from "./core.mjs";
import { JObj, protos, newObj, newArr, arrOf, isFn, storeSet, lookup, normRope, isConcreteRope, concreteVals } from "./heap.mjs";
import { call, construct, native, get, put, throwErr, toStr, toNum, hooksI, newPromise, settle, toPromise, hiddenSet, globals, drainMicrotasks, split, narrow, arith, enqueueCtx, mkError } from "./interp.mjs";
import { def, defV, defG, glob, now, toHost, fromHost, mkBytes, bytesTerm } from "./builtins.mjs";

// ---- process
const proc = newObj(); glob("process", proc);
const env = newObj(); proc.store = storeSet(proc.store, "env", env);
proc.store = storeSet(proc.store, "versions", fromHost({ node: "22.0.0" }));
proc.store = storeSet(proc.store, "version", "v22.0.0");
def(proc, "on", function* () { return proc; });
def(proc, "cwd", function* () { return "/"; });
def(proc, "nextTick", function* (_, [f, ...as]) { enqueueCtx(function* () { yield* call(f, undefined, as); }); });

// ---- timers
S.timers = { q: [] }; S.timerN = { n: 1 };
const timerProto = newObj();
function mkTimer(f, ms, as, interval) {
  const o = new JObj("Object", timerProto);
  const id = S.timerN.n; set(S.timerN, "n", id + 1);
  const d = ms === undefined ? 0 : split(ms);
  const ent = { o, f, as, ms: d, at: sortOf(d) === "num" ? (typeof d === "number" && !(d > 0) ? S.vtime.v : arith("+", S.vtime.v, d)) : null, id, interval, als: S.als.m };
  o.timerId = id;
  set(S.timers, "q", [...S.timers.q, ent]);
  return o;
}
S.vtime = { v: 0 };
S.timerN.hostMerge = (k, vals) => Math.max(...vals.map((x) => x.v));
for (const n of ["unref", "ref"]) def(timerProto, n, function* (th) { return th; });
def(timerProto, "hasRef", function* () { return true; });
glob("setTimeout", native("setTimeout", function* (_, [f, ms, ...as]) { return mkTimer(f, ms === undefined ? 0 : yield* toNum(ms), as, false); }));
glob("setInterval", native("setInterval", function* (_, [f, ms, ...as]) { return mkTimer(f, ms, as, true); }));
glob("setImmediate", native("setImmediate", function* (_, [f, ...as]) { return mkTimer(f, 0, as, false); }));
const clear = function* (_, [h]) {
  h = split(h);
  if (h === undefined || h === null || !(h instanceof JObj)) return;
  if (S.timers.q.some((e) => e.o === h)) set(S.timers, "q", S.timers.q.filter((e) => e.o !== h));
};
glob("clearTimeout", native("clearTimeout", clear)); glob("clearInterval", native("clearInterval", clear)); glob("clearImmediate", native("clearImmediate", clear));
export function* fireNext() {
  const q = S.timers.q;
  if (!q.length) return false;
  let best = q[0];
  for (const e of q.slice(1)) if (e.at !== null && best.at !== null && timeLt(e.at, best.at)) best = e;
  yield* fire(best);
  return true;
}
const T_ = (x) => (typeof x === "number" ? t.real(x) : x.term);
const timeLt = (a, b) => (typeof a === "number" && typeof b === "number" ? a < b : decide(t.lt(T_(a), T_(b))));
const timeLe = (a, b) => (typeof a === "number" && typeof b === "number" ? a <= b : decide(t.le(T_(a), T_(b))));
function* fire(best) {
  set(S.timers, "q", S.timers.q.filter((e) => e !== best));
  if (best.at !== null && timeLt(S.vtime.v, best.at)) advanceTo(best.at);
  if (best.interval) set(S.timers, "q", [...S.timers.q, { ...best, at: best.at === null ? null : arith("+", best.at, best.ms) }]);
  yield* call(best.f, undefined, best.as);
}
function advanceTo(x) { const d = arith("-", x, S.vtime.v); set(S.vtime, "v", x); if (S.clock.v !== null) set(S.clock, "v", arith("+", S.clock.v, d)); }
export function* advance(ms) { // virtual time; fires due timers in order
  ms = split(ms);
  const end = arith("+", S.vtime.v, ms);
  for (;;) {
    let best = null;
    for (const e of S.timers.q) if (e.at !== null && timeLe(e.at, end) && (!best || timeLt(e.at, best.at))) best = e;
    if (!best) break;
    yield* fire(best);
    yield* drainMicrotasks();
  }
  now(); advanceTo(end);
}
hooksI.idle = function* () { return yield* fireNext(); };

// ---- AsyncLocalStorage (exposed through models/async_hooks.js)
const als = native("AsyncLocalStorage", function* () {}, function* () { const o = new JObj("Object", alsProto); o.alsKey = {}; return o; });
const alsProto = newObj();
als.store = hiddenSet(als.store, "prototype", alsProto);
def(alsProto, "getStore", function* (th) { return S.als.m.get(th.alsKey); });
def(alsProto, "run", function* (th, [v, f, ...as]) {
  const saved = S.als.m; const m = new Map(saved); m.set(th.alsKey, v);
  set(S.als, "m", m);
  try { return yield* call(f, undefined, as); } finally { set(S.als, "m", saved); }
});
def(alsProto, "enterWith", function* (th, [v]) { const m = new Map(S.als.m); m.set(th.alsKey, v); set(S.als, "m", m); });
def(alsProto, "disable", function* () {});
glob("__AsyncLocalStorage", als);
S.als.hostMerge = (k, vals) => (vals.every((x) => [...x.v].length === [...vals[0].v].length && [...x.v].every(([a, b]) => vals[0].v.get(a) === b)) ? vals[0].v : undefined);

// ---- misc globals
const perf = newObj(); glob("performance", perf); def(perf, "now", function* () { return mkNum(freshTerm("perf", "Real")); });
function mkDomException(msg, name) { const e = mkError("Error", msg); e.store = hiddenSet(e.store, "name", name); return e; }
glob("DOMException", native("DOMException", function* () { throwErr("TypeError", "constructor"); }, function* (_, [m, n]) { return mkDomException(m === undefined ? "" : yield* toStr(m), n === undefined ? "Error" : yield* toStr(n)); }));
function mkSignal() {
  const s = new JObj("Object", protos.AbortSignal); s.store = storeSet(storeSet(storeSet(emptyStore, "aborted", false), "reason", undefined), "onabort", null);
  s.listeners = []; return s;
}
function* abortSignal(s, r) {
  if (lookup(s.store, "aborted").val === true) return;
  set(s, "store", storeSet(storeSet(s.store, "aborted", true), "reason", r === undefined ? mkDomException("This operation was aborted", "AbortError") : r));
  const ls = s.listeners; set(s, "listeners", []);
  const h = lookup(s.store, "onabort").val; const ev = newObj(); ev.store = storeSet(storeSet(ev.store, "type", "abort"), "target", s);
  if (isFn(h)) yield* call(h, s, [ev]);
  for (const { f, off } of ls) if (!(off && lookup(off.store, "aborted").val === true)) yield* call(f, s, [ev]);
}
def(protos.AbortSignal, "addEventListener", function* (s, [, f, o]) { if (s.listeners.some((x) => x.f === f)) return; const off = o instanceof JObj ? lookup(o.store, "signal")?.val : undefined; set(s, "listeners", [...s.listeners, { f, off: off instanceof JObj ? off : undefined }]); });
def(protos.AbortSignal, "removeEventListener", function* (s, [, f]) { set(s, "listeners", s.listeners.filter((x) => x.f !== f)); });
def(protos.AbortSignal, "throwIfAborted", function* (s) { if (lookup(s.store, "aborted").val === true) throw new JSThrow(lookup(s.store, "reason").val); });
glob("AbortController", native("AbortController", function* () {}, function* () {
  const o = newObj(); const s = mkSignal();
  o.store = storeSet(o.store, "signal", s);
  def(o, "abort", function* (_, [r]) { yield* abortSignal(s, r); });
  return o;
}));
const absig = native("AbortSignal", function* () {}, function* () { throwErr("TypeError", "Illegal constructor"); }); glob("AbortSignal", absig);
absig.store = hiddenSet(absig.store, "prototype", protos.AbortSignal);
def(absig, "abort", function* (_, [r]) { const s = mkSignal(); yield* abortSignal(s, r); return s; });
def(absig, "timeout", function* (_, [ms]) { const s = mkSignal(); mkTimer(native("timeout", function* () { yield* abortSignal(s, mkDomException("The operation was aborted due to timeout", "TimeoutError")); }), yield* toNum(ms), [], false); return s; });
def(absig, "any", function* (_, [list]) {
  const s = mkSignal(); const r = normRope(list.rope); if (!isConcreteRope(r)) throw new Unsupported("AbortSignal.any of unknown sequence");
  for (const x of concreteVals(r)) { if (lookup(x.store, "aborted").val === true) { yield* abortSignal(s, lookup(x.store, "reason").val); break; } }
  for (const x of concreteVals(r)) set(x, "listeners", [...x.listeners, { f: native("any", function* () { yield* abortSignal(s, lookup(x.store, "reason").val); }) }]);
  return s;
});
// Buffer: opaque byte values with injective encodings
const buf = native("Buffer", function* () {}, function* () { throw new Unsupported("new Buffer"); }); glob("Buffer", buf);
buf.store = hiddenSet(buf.store, "prototype", protos.Uint8Array);
def(buf, "from", function* (_, [v, enc]) {
  v = narrow(v);
  if (v instanceof JObj && v.bytes !== undefined) return mkBytes(bytesTerm(v));
  if (sortOf(v) === "str") {
    const s = v instanceof Sym ? v.term : t.str(v);
    if (enc === "base64") return s.op === "app:b64enc" ? mkBytes(s.args[0]) : mkBytes(t.app("b64dec", [s], "String"));
    if (enc === undefined || enc === "utf8" || enc === "utf-8") return mkBytes(t.app("utf8", [s], "String"));
    return mkBytes(t.app("dec_" + enc, [s], "String"));
  }
  throw new Unsupported("Buffer.from");
});
def(buf, "isBuffer", function* (_, [v]) { return v instanceof JObj && v.bytes !== undefined; });
def(buf, "byteLength", function* (_, [v]) { const s = split(yield* toStr(v)); return typeof s === "string" ? Buffer.byteLength(s) : mkNum(t.toReal(t.app("byteLen", [t.app("utf8", [s.term], "String")], "Int"))); });
def(protos.Uint8Array, "toString", function* (th, [enc]) {
  if (th.bytes === undefined) throw new Unsupported("bytes");
  const b = th.bytes;
  if (enc === "base64") return mkStr(b.op === "app:b64dec" ? t.app("b64norm", [b.args[0]], "String") : t.app("b64enc", [b], "String"));
  if (enc === undefined || enc === "utf8" || enc === "utf-8") return mkStr(b.op === "app:utf8" ? b.args[0] : t.app("utf8dec", [b], "String"));
  return mkStr(t.app("enc_" + enc, [b], "String"));
});

// __uf(name, ...args): an unspecified but deterministic string function of its arguments (objects by identity).
// Proofs hold for every such function; refutations that depend on it are not conclusive.
glob("__uf", native("__uf", function* (_, [name, ...args]) {
  S.imprecise.v = S.imprecise.v ?? name + " is uninterpreted";
  const ts = args.map((a) => toVal(split(a)));
  return mkStr(t.app("uf:" + name, ts, "String"));
}));

// URL: exact for known strings, a total model (valid or not, each component a function of the text) otherwise
const URLK = ["href", "origin", "protocol", "host", "hostname", "port", "pathname", "search", "hash", "username", "password"];
const urlC = native("URL", function* () { throwErr("TypeError", "Class constructor URL cannot be invoked without 'new'"); }, function* ([v, base]) {
  v = split(yield* toStr(v));
  if (base !== undefined) throw new Unsupported("URL with a base");
  const o = new JObj("URL", protos.URL);
  o.url = { parts: null };
  if (typeof v === "string") {
    let u; try { u = new URL(v); } catch { throwErr("TypeError", "Invalid URL"); }
    o.url.parts = Object.fromEntries(URLK.map((k) => [k, u[k]]));
    return o;
  }
  S.imprecise.v = S.imprecise.v ?? "URL parsing is uninterpreted";
  if (!decide(t.app("urlOk", [v.term], "Bool"))) throwErr("TypeError", "Invalid URL");
  o.url.parts = Object.fromEntries(URLK.map((k) => [k, mkStr(t.app("url_" + k, [v.term], "String"))])); o.url.unknown = true;
  return o;
});
// text of known path characters and percent-encoded pieces: the pathname setter keeps it, unless a segment is a dot segment
function safePath(term) {
  const parts = term.op === "str.++" ? term.args : [term];
  for (const p of parts) if (p.op === "str" ? !/^[A-Za-z0-9/_~!$&'()*+,;=:@%-]*$/.test(p.data) : p.op !== "app:encodeURIComponent") return null;
  return parts.filter((p) => p.op !== "str");
}
for (const k of URLK) {
  const g = native("get " + k, function* (th) { return th.url.parts[k]; });
  const st = native("set " + k, function* (th, [v]) {
    const cur = th.url.parts;
    v = split(yield* toStr(v));
    if (k !== "pathname" || th.url.unknown) throw new Unsupported("URL setter " + k);
    if (typeof v === "string" && URLK.every((x) => typeof cur[x] === "string")) { const u = new URL(cur.href); u.pathname = v; set(th.url, "parts", Object.fromEntries(URLK.map((x) => [x, u[x]]))); return; }
    const term = v instanceof Sym ? v.term : t.str(v), vars = safePath(term);
    if (!vars || cur.search !== "" || cur.hash !== "" || !["http:", "https:"].includes(cur.protocol) || !(term.op === "str" || (term.args[0].op === "str" && term.args[0].data.startsWith("/")))) throw new Unsupported("URL pathname of unknown text " + t.show(term).slice(0, 300));
    for (const x of vars) if (decide(t.or(t.eq(x, t.str(".")), t.eq(x, t.str(".."))))) throw new Unsupported("URL pathname with a dot segment");
    set(th.url, "parts", { ...cur, pathname: v, href: mkStr(t.concat(t.str(cur.origin.replace("://", cur.username || cur.password ? "://" + cur.username + (cur.password ? ":" + cur.password : "") + "@" : "://")), term)) });
  });
  protos.URL.store = { base: null, ents: [...protos.URL.store.ents, { k, g: t.T, acc: { get: g, set: st }, hidden: true }] };
}
glob("URL", urlC);
for (const n of ["toString", "toJSON"]) def(protos.URL, n, function* (th) { return yield* get(th, "href"); });
