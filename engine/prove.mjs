// Contract units: symbolic inputs, requires/ensures, obligations and their discharge.
import * as t from "./terms.mjs";
import * as solver from "./solver.mjs";
import { resetQuick } from "./quick.mjs";
import { S, set, rollback, truncPc, pushPc, assume, known, decide, freshTerm, newDecider, region, Sym, Union, JSymbol, JSThrow, Infeasible, Unsupported, NeedFork, sortOf, termOf, fromTerm, mkBool, mkNum, mkStr, mkAny, mergeValues, iteValue, mapU, mapUTerm, toVal, truthy, isNullish, strictEq, emptyStore, hooks, counters } from "./core.mjs";
import { JObj, protos, newObj, newArr, arrOf, isObj, isFn, lookup, storeSet, entriesRope, ropeLen, ropeAt, normRope, isConcreteRope, concreteVals, srcElem, srcSeg, existsIdx, noteIndex, substRope, typed, anyT, typeOfTerm, materialise, canonRope, canonValue, segLen, arrSrc, dictSrc } from "./heap.mjs";
import { call, construct, native, get, getV, put, throwErr, toStr, narrow, split, iterToRopeU, iterateRope, OK, Deadlock, drainMicrotasks, awaitV, toPromise, touched, stubs, globals, ownLookup, enumerableStore, newPromise, settle, resolvePromise, isUndef } from "./interp.mjs";
import { def, defV, toHost, fromHost, now } from "./builtins.mjs";
import { advance, fireNext } from "./env.mjs";

export const opt = { proveTimeout: 8000, maxPaths: 400, maxMs: 240000 };
// ---------- obligations ----------
export let cur = null; // current unit record
function record(label, status, info) {
  S.recN++;
  let o = cur.obligations.get(label);
  if (!o) cur.obligations.set(label, (o = { label, proved: 0, trivial: 0, refuted: 0, unknown: 0, ms: 0, backends: {} }));
  o[status]++;
  if (info?.ms) o.ms += info.ms;
  if (info?.backend) o.backends[info.backend] = (o.backends[info.backend] || 0) + 1;
  if (status === "refuted" || status === "unknown") { o.detail = o.detail ?? info?.detail; if (info?.model) (o.models = o.models ?? []).push(info.model); if (info?.imprecise) o.imprecise = info.imprecise; }
}
function prove(label, goal) {
  if (goal === t.T || known(goal) === true) { record(label, "trivial"); return true; }
  // conjunctions are discharged one by one
  if (goal.op === "and") { let ok = true; for (const g of goal.args) if (!prove1(label, g)) ok = false; return ok; }
  return prove1(label, goal);
}
// a satisfying assignment means nothing if it depends on a library function the encoding leaves uninterpreted
const EXACT = /^(len0|elt0|get0|has0|keyAt|idxOf|nkeys0|ival|alt\d*)$/;
const apxMemo = new Map();
function symbols(x) { // -> {syms:Set of leaf symbols, apx: first approximated function}
  let r = apxMemo.get(x.id); if (r) return r;
  r = { syms: new Set(), apx: null };
  if (x.op === "const") { r.syms.add(x.data); if (/^(json|join)/.test(x.data)) r.apx = x.data.replace(/\$.*/, ""); }
  else if (x.op.startsWith("app:")) { const n = x.op.slice(4); if (!EXACT.test(n) && !n.includes("!") && !/^ex\d+\$/.test(n) && !n.startsWith(S.prefix)) r.apx = n.replace(/\$.*/, ""); }
  else if (x.op === "str.len" && solver.opts.strlen === "abstract") r.apx = "length";
  for (const a of x.args) { const q = symbols(a); for (const y of q.syms) r.syms.add(y); r.apx = r.apx ?? q.apx; }
  apxMemo.set(x.id, r); return r;
}
function approximated(goal) {
  const all = S.pc.map(symbols), g = symbols(goal);
  if (g.apx) return g.apx;
  if (goal === t.F || !g.syms.size) return all.find((q) => q.apx)?.apx ?? null;
  const cone = new Set(g.syms), left = new Set(all);
  for (let ch = true; ch;) { ch = false; for (const q of left) if ([...q.syms].some((y) => cone.has(y))) { left.delete(q); ch = true; if (q.apx) return q.apx; for (const y of q.syms) cone.add(y); } }
  return null;
}
function prove1(label, goal) {
  if (goal === t.T || known(goal) === true) { record(label, "trivial"); return true; }
  const t0 = Date.now();
  const neg = t.not(goal);
  const all = [...S.pc, neg], part = solver.slice(all);
  let r = part === all ? null : solver.check(part, { timeout: opt.proveTimeout, portfolio: true });
  if (!r || r.r !== "unsat") r = solver.check(all, { timeout: opt.proveTimeout, portfolio: true });
  const ms = Date.now() - t0;
  if (r.r === "unsat") { record(label, "proved", { ms, backend: r.backend }); return true; }
  if (r.r === "sat") {
    const apx = S.imprecise.v ? null : approximated(goal), imp = S.imprecise.v ?? (apx ? "depends on the uninterpreted library function " + apx : null);
    if (cur.firstRefuted === undefined) cur.firstRefuted = label;
    const o = cur.obligations.get(label);
    let model = null;
    if (!(o?.models?.length > 3)) { const m = solver.check([...S.pc, neg], { timeout: opt.proveTimeout, evals: (ev) => extractModel(ev) }); model = m.model ?? null; }
    record(label, imp ? "unknown" : "refuted", { ms, backend: r.backend, model, imprecise: imp, detail: "negated goal satisfiable: " + t.show(goal).slice(0, 600) });
    return false;
  }
  record(label, "unknown", { ms, detail: "solver: " + r.why + " on " + t.show(goal).slice(0, 600) });
  return false;
}
// ---------- model extraction ----------
export function parseSexp(s) {
  let i = 0;
  const ws = () => { while (i < s.length && /\s/.test(s[i])) i++; };
  const one = () => {
    ws();
    if (s[i] === "(") { i++; const out = []; for (;;) { ws(); if (i >= s.length || s[i] === ")") { i++; return out; } out.push(one()); } }
    if (s[i] === '"') { let r = ""; i++; for (;;) { if (s[i] === '"') { if (s[i + 1] === '"') { r += '"'; i += 2; continue; } i++; break; } if (i >= s.length) break; r += s[i++]; } return { str: r.replace(/\\u\{([0-9a-fA-F]+)\}/g, (_, h) => String.fromCodePoint(parseInt(h, 16))).replace(/\\x([0-9a-fA-F]{2})/g, (_, h) => String.fromCharCode(parseInt(h, 16))) }; }
    let r = ""; while (i < s.length && !/[\s()]/.test(s[i])) r += s[i++];
    return r;
  };
  return one();
}
function numOf(x) { if (Array.isArray(x)) { if (x[0] === "-") return -numOf(x[1]); if (x[0] === "/") return numOf(x[1]) / numOf(x[2]); return 0; } const n = Number(String(x).replace("?", "")); return Number.isFinite(n) ? n : 0; }
function extractModel(evalT) {
  const memo = new Map();
  const ev = (term) => { if (memo.has(term.id)) return memo.get(term.id); const r = evalT(term); const x = r === null ? null : parseSexp(r); memo.set(term.id, x); return x; };
  const int = (term) => { const x = ev(term); return x === null ? 0 : numOf(x); };
  const bool = (term) => ev(term) === "true";
  // every has0/len0/get0 application in the path condition, by base term
  const keys = new Map();
  const seen = new Set();
  const scan = (x) => { if (seen.has(x.id)) return; seen.add(x.id); if (x.op === "app:has0") { const b = x.args[0].id; if (!keys.has(b)) keys.set(b, []); keys.get(b).push(x); } for (const a of x.args) scan(a); };
  for (const x of S.pc) scan(x);
  const fixLen = (term, s) => { // abstract length
    if (solver.opts.strlen !== "abstract") return s;
    const lt = t.strlen(term); if (lt.op !== "str.len" || !seen.has(lt.id)) return s;
    const n = int(lt); if (n > s.length && n < 5000) return s + "x".repeat(n - s.length); if (n < s.length) return s.slice(0, n); return s;
  };
  const conc = (term, ty, depth) => {
    if (depth > 6) return null;
    let v = ev(term);
    const FORCE = { str: "VS", num: "VN", int: "VN", bool: "VB", obj: "VObj", dict: "VObj", arr: "VArr", undef: "VUndef", null: "VNull" };
    const fk = FORCE[ty.k];
    if (fk && (v === null || (Array.isArray(v) ? v[0] : v) !== fk)) v = fk === "VUndef" || fk === "VNull" ? fk : [fk, fk === "VS" ? ev(t.acc("vs", term)) : fk === "VN" ? ev(t.acc("vn", term)) : fk === "VB" ? ev(t.acc("vb", term)) : "0"];
    if (ty.k === "int") return int(t.app("ival", [term], "Int"));
    if (ty.k === "lit" || (ty.k === "union" && flat(ty).some((a) => a.k === "lit"))) { for (const l of flat(ty).flatMap((a) => (a.k === "lit" ? a.v : []))) { const e = t.eq(term, toVal(l)); if (e === t.T || (e !== t.F && bool(e))) return l; } if (ty.k === "lit") return ty.v[0]; }
    if (v === "VUndef" || v === null) return undefined;
    if (v === "VNull") return null;
    if (!Array.isArray(v)) return undefined;
    const alts = ty.k === "union" ? flat(ty) : [ty];
    const pick = (ks) => alts.find((a) => ks.includes(a.k)) ?? anyT;
    switch (v[0]) {
      case "VB": return v[1] === "true";
      case "VN": return numOf(v[1]);
      case "VS": return fixLen(t.acc("vs", term), v[1]?.str ?? "");
      case "VFun": return { $fn: true };
      case "VArr": {
        const a = pick(["arr"]); const n = Math.min(60, Math.max(0, int(t.app("len0", [term], "Int")))); const out = [];
        for (let i = 0; i < n; i++) out.push(conc(t.app("elt0", [term, t.int(i)], "Val"), a.k === "arr" ? a.of : anyT, depth + 1));
        return out;
      }
      case "VObj": {
        const a = pick(["obj", "dict"]); const o = {};
        if (a.k === "obj") {
          for (const [k, pt] of Object.entries(a.props)) { const x = conc(t.app("get0", [term, t.str(k)], "Val"), pt, depth + 1); if (x !== undefined) o[k] = x; }
          if (!a.open) return o;
        }
        const vt = a.k === "dict" ? a.of : anyT;
        for (const h of keys.get(term.id) ?? []) if (bool(h)) { const kk = ev(h.args[1]); const k = kk?.str; if (k === undefined || k in o) continue; o[k] = conc(t.app("get0", [term, h.args[1]], "Val"), vt, depth + 1); }
        // values of the same base reached through equal terms
        return o;
      }
    }
    return undefined;
  };
  const out = {};
  for (const inp of cur.inputs) { try { out[inp.name] = enc(conc(inp.term, inp.type, 0)); } catch (e) { out[inp.name] = { $err: String(e) }; } }
  return out;
}
const flat = (ty) => (ty.k === "union" ? ty.of.flatMap(flat) : [ty]);
const enc = (v) => (v === undefined ? { $undef: true } : Array.isArray(v) ? v.map(enc) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, enc(x)])) : v);

// ---------- T ----------
const mkT = (ty) => { const o = newObj(); o.tyd = ty; return o; };
export const Tobj = newObj();
const tyOf = (o) => { if (o instanceof JObj && o.tyd) return o.tyd; throw new Error("bad type descriptor"); };
for (const [n, k] of [["str", "str"], ["num", "num"], ["bool", "bool"], ["any", "any"], ["undef", "undef"], ["nul", "null"]]) defV(Tobj, n, mkT({ k }));
defV(Tobj, "int", mkT({ k: "int" }));
const hostOpts = (o) => { if (o === undefined) return {}; const r = {}; for (const e of o.store.ents) r[e.k] = e.v instanceof JObj && e.v.re ? e.v.re : e.v instanceof JObj && e.v.cls === "Array" ? concreteVals(e.v.rope) : e.v; return r; };
def(Tobj, "strOf", function* (_, [o]) { const h = hostOpts(o); return mkT({ k: "str", maxLen: h.maxLen, nonEmpty: h.nonEmpty, re: h.re }); });
def(Tobj, "range", function* (_, [a, b]) { return mkT({ k: "int", min: a, max: b }); });
def(Tobj, "numRange", function* (_, [a, b]) { return mkT({ k: "num", min: a, max: b }); });
def(Tobj, "lit", function* (_, as) { return mkT({ k: "lit", v: as }); });
def(Tobj, "or", function* (_, as) { return mkT({ k: "union", of: as.map(tyOf) }); });
def(Tobj, "opt", function* (_, [a]) { return mkT({ k: "union", of: [tyOf(a), { k: "undef" }] }); });
def(Tobj, "nullable", function* (_, [a]) { return mkT({ k: "union", of: [tyOf(a), { k: "undef" }, { k: "null" }] }); });
const propsOf = (o) => Object.fromEntries(o.store.ents.map((e) => [e.k, tyOf(e.v)]));
def(Tobj, "obj", function* (_, [o]) { return mkT({ k: "obj", props: propsOf(o) }); });
def(Tobj, "open", function* (_, [o]) { return mkT({ k: "obj", props: propsOf(o), open: true }); });
def(Tobj, "arr", function* (_, [a, o]) { const h = hostOpts(o); return mkT({ k: "arr", of: tyOf(a), minLen: h.min, maxLen: h.max }); });
def(Tobj, "dict", function* (_, [a]) { return mkT({ k: "dict", of: tyOf(a) }); });

// ---------- $ ----------
export const $ = newObj();
function mkInput(name, ty, fresh) {
  let full = S.prefix + name;
  if (fresh) { const n = S.fresh.n; set(S.fresh, "n", n + 1); full += "!" + n; name += "!" + n; }
  const ix = S.idxStack.slice();
  const term = ix.length ? t.app(full, ix, "Val") : t.cst(full, "Val");
  if (!cur.inputs.some((i) => i.name === name)) cur.inputs.push({ name, term, type: ty, indexed: ix.length > 0 });
  return typed(term, ty);
}
def($, "in", function* (_, [name, ty]) { return mkInput(name, tyOf(ty), false); });
def($, "fresh", function* (_, [name, ty]) { return mkInput(name, tyOf(ty), true); });
def($, "assume", function* (_, [c]) {
  const x = truthy(c);
  assume(x);
  if (x !== t.T && known(x) !== true) return;
});
def($, "assert", function* (_, [label, c]) { const g = truthy(c); prove(label, g); if (!process.env.TSCV_SELFTEST) assume(g); });
def($, "same", function* (_, [label, a, b]) {
  const gs = yield* goalsFor(a, b, 0);
  let ok = true;
  for (const g of gs) if (!prove(label, g)) ok = false;
  if (!gs.length) record(label, "trivial");
  if (!ok) { /* keep going: later obligations are still meaningful */ }
});
def($, "cover", function* (_, [label]) {
  if (cur.covers.get(label)) return;
  const r = solver.check(S.pc, { timeout: 3000 });
  cur.covers.set(label, cur.covers.get(label) || r.r !== "unsat");
});
def($, "expectCovers", function* (_, as) { for (const a of as) if (!cur.covers.has(a)) cur.covers.set(a, false); });
def($, "fail", function* (_, [label]) { prove(label, t.F); throw new Infeasible(); });
def($, "drain", function* () { yield* drainMicrotasks(); const p = newPromise(); settle(p, "fulfilled", undefined); return p; });
def($, "advance", function* (_, [ms]) { yield* drainMicrotasks(); yield* advance(ms); yield* drainMicrotasks(); const p = newPromise(); settle(p, "fulfilled", undefined); return p; });
def($, "timers", function* () { return S.timers.q.length; });
def($, "now", function* () { return now(); });
def($, "deferred", function* () {
  const p = newPromise(); const o = newObj();
  o.store = storeSet(storeSet(storeSet(emptyStore, "promise", p), "resolve", native("resolve", function* (_, [v]) { yield* resolvePromise(p, v); })), "reject", native("reject", function* (_, [v]) { settle(p, "rejected", v); }));
  return o;
});
def($, "stateOf", function* (_, [p]) { return p instanceof JObj && p.cls === "Promise" ? p.state : "none"; });
defV($, "symbolic", true);
defV($, "seed", 0);
// for every element of a sequence: one generic element stands for all of them
def($, "each", function* (_, [arr, f]) {
  const rope = normRope(yield* iterToRopeU(arr));
  yield* eachRope(rope, function* (v, i) { yield* call(f, undefined, [v, i]); });
});
def($, "eachKey", function* (_, [o, f]) {
  o = narrow(o);
  const rope = normRope(entriesRope({ base: o.store.base, ents: o.store.ents.filter((e) => !e.hidden) }));
  yield* eachRope(rope, function* (p) { yield* call(f, undefined, [p.key, p.val]); });
});
function* eachRope(rope, body) {
  let off = t.int(0);
  for (const s of rope) {
    const off0 = off;
    if (s.t === "e") {
      yield* region(s, function* () { if (decide(s.g)) yield* body(s.v, mkNum(t.toReal(off0))); return OK; });
    } else if (s.t === "c") {
      yield* region(s, function* () {
        if (!decide(s.g)) return OK;
        const i = freshTerm("each", "Int");
        const inR = t.and(t.le(s.lo, i), t.lt(i, s.hi));
        if (!decide(inR)) return OK;
        noteIndex(s.src, i);
        const items = s.items ? substRope(s.items, new Map([[s.idx, i]])) : [{ t: "e", g: t.T, v: srcElem(s.src, i) }];
        srcElem(s.src, i);
        const simple = !s.items || (s.items.length === 1 && s.items[0].t === "e" && s.items[0].g === t.T);
        for (const it of items) {
          if (it.t !== "e") { yield* eachRope([it], body); continue; }
          yield* region(it, function* () { if (decide(it.g)) yield* body(it.v, simple ? mkNum(t.toReal(t.iadd(off0, t.isub(i, s.lo)))) : mkNum(freshTerm("eachpos", "Real"))); return OK; });
        }
        return OK;
      });
    } else if (s.t === "u") yield* eachRope(s.rope, body);
    off = t.iadd(off, segLen(s));
  }
}
// ---------- structural equality as proof goals ----------
function* goalsFor(a, b, d, seen = new Set()) {
  const out = [];
  const pend = (gs, g) => { for (const x of gs) out.push(g === t.T ? x : t.implies(g, x)); };
  if (a === b || Object.is(a, b)) return out;
  if (d > 14) return [t.F];
  if (a instanceof Union) { for (const x of a.alts) if (known(x.g) !== false) pend(yield* goalsFor(x.v, restrict(b, x.g), d, seen), x.g); return out; }
  if (b instanceof Union) { for (const x of b.alts) if (known(x.g) !== false) pend(yield* goalsFor(a, x.v, d, seen), x.g); return out; }
  const ao = a instanceof JObj, bo = b instanceof JObj;
  if (!ao && !bo) {
    if (typeof a === "number" && typeof b === "number" && a !== a && b !== b) return out;
    const e = strictEq(a, b); if (e !== t.T) out.push(e); return out;
  }
  if (ao !== bo) {
    const o = ao ? a : b, v = ao ? b : a;
    if (!(v instanceof Sym) || v.sort !== "any") return [t.F];
    const e = strictEq(o, v); if (e === t.T) return out;
    if (o.symTerm && e !== t.F && o.store.ents.length === 0 && (o.cls !== "Array" || pure(o))) return [e];
    if (o.cls === "Function") return [e];
    const k = o.cls === "Array" ? "VArr" : "VObj";
    out.push(t.is(k, v.term));
    const m = materialise(v.term, k);
    for (const g of yield* (ao ? goalsFor(o, m, d + 1, seen) : goalsFor(m, o, d + 1, seen))) out.push(g);
    return out;
  }
  const key = a.id + "|" + b.id; if (seen.has(key)) return out; seen.add(key);
  if (a.cls === "Function" || b.cls === "Function") { const e = strictEq(a, b); return e === t.T ? out : [e]; }
  if (a.proxy) return yield* goalsFor(a.proxy.target, b, d, seen);
  if (b.proxy) return yield* goalsFor(a, b.proxy.target, d, seen);
  if (a.date || b.date) { if (!a.date || !b.date) return [t.F]; return yield* goalsFor(a.date.t, b.date.t, d + 1, seen); }
  if ((a.bytes !== undefined || b.bytes !== undefined) && a.u8 && b.u8) { if (a.u8.length !== b.u8.length) return [t.F]; for (let i = 0; i < a.u8.length; i++) pend(yield* goalsFor(a.u8[i], b.u8[i], d + 1, seen), t.T); return out; }
  if (a.bytes !== undefined || b.bytes !== undefined) return a.bytes === b.bytes && a.bytes !== "arr" ? out : a.bytes?.id && b.bytes?.id ? [t.eq(a.bytes, b.bytes)] : [t.F];
  if ((a.cls === "Array") !== (b.cls === "Array")) return [t.F];
  if (a.cls === "Array") return yield* ropeGoals(normRope(a.rope), normRope(b.rope), d, seen);
  if (a.cls === "Promise" || b.cls === "Promise") return [t.F];
  if (a.cls === "Map" || a.cls === "Set") throw new Unsupported("structural equality of " + a.cls);
  // objects
  if (a.symTerm && b.symTerm && !a.store.ents.length && !b.store.ents.length) { const e = t.eq(a.symTerm, b.symTerm); if (e === t.T) return out; }
  if (a.cls === "Error" || b.cls === "Error") { return [t.F]; }
  if (canonValue(a) === canonValue(b)) return out;
  const sa = yield* enumerableStore(a), sb = yield* enumerableStore(b);
  const ks = new Set(); let sym = false;
  const scanB = (s) => {
    if (s.base) { if (s.base.type.k === "obj") { for (const k of Object.keys(s.base.type.props)) ks.add(k); if (s.base.type.open) sym = true; } else sym = true; }
    for (const e of s.ents) { if (e.hidden) continue; if (e.ov) scanB(e.ov); else if (e.bulk || e.opaque) sym = true; else if (typeof e.k === "string") { if (!e.k.startsWith("\uE000@ctor")) ks.add(e.k); } else sym = true; }
  };
  scanB(sa); scanB(sb);
  for (const k of ks) for (const g of yield* goalsFor(lookup(sa, k).val, lookup(sb, k).val, d + 1, seen)) out.push(g);
  if (sym) {
    const k = freshTerm("anykey", "String");
    for (const c of ks) if (!c.startsWith("\uE000@")) assume(t.not(t.eq(k, t.str(c))));
    for (const g of yield* goalsFor(lookup(sa, k).val, lookup(sb, k).val, d + 1, seen)) out.push(g);
  }
  return out;
}
const pure = (o) => o.rope && o.rope.length === 1 && o.rope[0].t === "c" && !o.rope[0].items && o.rope[0].src.term === o.symTerm;
function restrict(v, g) { // drop alternatives excluded by g (syntactically)
  if (!(v instanceof Union)) return v;
  const as = v.alts.filter((x) => t.and(x.g, g) !== t.F);
  return as.length === 1 ? as[0].v : as.length ? new Union(as) : v;
}
function normItems(items) { // exclusive single elements become one guarded element
  if (items.length > 1 && items.every((x) => x.t === "e")) {
    for (let i = 0; i < items.length; i++) for (let j = i + 1; j < items.length; j++) if (t.and(items[i].g, items[j].g) !== t.F) return items;
    return [{ t: "e", g: t.or(...items.map((x) => x.g)), v: mergeValues(items.map((x) => ({ g: x.g, v: x.v }))) }];
  }
  return items;
}
function* ropeGoals(A, B, d, seen) {
  const out = [];
  if (canonRope(A) === canonRope(B)) return out;
  if (isConcreteRope(A) && isConcreteRope(B)) {
    if (A.length !== B.length) return [t.F];
    for (let i = 0; i < A.length; i++) for (const g of yield* goalsFor(A[i].v, B[i].v, d + 1, seen)) out.push(g);
    return out;
  }
  const shape = (r) => r.map((s) => s.t === "c" ? "c" + s.src.key + "/" + s.lo.id + "/" + s.hi.id : s.t).join(";");
  if (shape(A) === shape(B)) {
    for (let i = 0; i < A.length; i++) {
      const x = A[i], y = B[i];
      if (x.g !== y.g) out.push(t.eq(x.g, y.g));
      if (x.t === "e") { for (const g of yield* goalsFor(x.v, y.v, d + 1, seen)) out.push(t.implies(x.g, g)); }
      else if (x.t === "u") { for (const g of yield* ropeGoals(normRope(x.rope), normRope(y.rope), d + 1, seen)) out.push(t.implies(x.g, g)); }
      else {
        const j = freshTerm("sk", "Int"); noteIndex(x.src, j); srcElem(x.src, j);
        const inR = t.and(x.g, t.le(x.lo, j), t.lt(j, x.hi));
        const ia = normItems(x.items ? substRope(x.items, new Map([[x.idx, j]])) : [{ t: "e", g: t.T, v: srcElem(x.src, j) }]);
        const ib = normItems(y.items ? substRope(y.items, new Map([[y.idx, j]])) : [{ t: "e", g: t.T, v: srcElem(y.src, j) }]);
        for (const g of yield* ropeGoals(ia, ib, d + 1, seen)) out.push(t.implies(inR, g));
      }
    }
    return out;
  }
  const na = ropeLen(A), nb = ropeLen(B);
  out.push(t.eq(na, nb));
  const j = freshTerm("sk", "Int");
  for (const g of yield* goalsFor(ropeAt(A, j), ropeAt(B, j), d + 1, seen)) out.push(t.implies(t.and(t.le(t.int(0), j), t.lt(j, na), t.lt(j, nb)), g));
  return out;
}

// ---------- running a unit ----------
export function runUnit(name, fnVal, o = {}) {
  S.prefix = name.replace(/[^A-Za-z0-9_]/g, "_") + ".";
  solver.setStrlen(o.strlen ?? "abstract");
  const rec = { name, obligations: new Map(), covers: new Map(), inputs: [], paths: 0, infeasible: 0, unsupported: null, ms: 0, restarts: 0 };
  const nomerge = new Set();
  const t0 = Date.now();
  touched.clear(); resetQuick();
  const saveP = opt.proveTimeout; if (o.proveTimeout) opt.proveTimeout = o.proveTimeout;
  for (let attempt = 0; ; attempt++) {
    cur = rec;
    rec.obligations.clear(); rec.covers.clear(); rec.paths = 0; rec.infeasible = 0; rec.inputs = [];
    S.nomerge = nomerge; S.mergedSites = new Set(); S.regions = [fnVal]; S.idxStack = []; S.task.depth = 0; S.inlineAwait = null; S.sink = null; S.steps = 0; S.unit = o;
    S.rejections = { v: [] }; S.rejections.hostMerge = (k, vals) => { const r = []; for (const x of vals) for (const p of x.v) if (!r.includes(p)) r.push(p); return r; };
    const mark = S.trail.length, pcMark = S.pc.length;
    try {
      let script = [];
      for (;;) {
        if (rec.paths + rec.infeasible > (o.maxPaths ?? opt.maxPaths)) throw new Unsupported("path budget exceeded (" + rec.paths + ")");
        if (Date.now() - t0 > (o.maxMs ?? opt.maxMs)) throw new Unsupported("time budget exceeded");
        const d = newDecider(script);
        S.decider = d; S.regions.length = 1; S.idxStack = []; S.task.depth = 0; S.inlineAwait = null; S.sink = null;
        try {
          const g = (function* () {
            now();
            const r = yield* call(fnVal, undefined, [$, Tobj]);
            yield* awaitV(r);
            yield* drainMicrotasks();
          })();
          let r = g.next();
          while (!r.done) throw new Unsupported("unexpected suspension at unit level");
          rec.paths++;
          if (o.noUnhandled !== false) {
            const bad = S.rejections.v.filter((p) => !p.handled && p.state === "rejected");
            if (bad.length) prove("no unhandled rejection", t.F);
          }
        } catch (e) {
          if (e instanceof JSThrow) { rec.paths++; let m = ""; try { const mv = e.value instanceof JObj ? lookup(e.value.store, "message").val : e.value; m = typeof mv === "string" ? mv : mv?.term ? t.show(mv.term) : mv?.alts ? mv.alts.map((x) => (x.v?.term ? t.show(x.v.term) : String(x.v))).join(" | ") : String(mv); } catch {} const lbl = "no unexpected exception"; prove(lbl, t.F); const ob = rec.obligations.get(lbl); if (ob) ob.detail = "uncaught: " + m + "; " + (ob.detail ?? ""); }
          else if (e instanceof Deadlock) { rec.paths++; prove("every awaited promise settles", t.F); }
          else if (e instanceof Infeasible) rec.infeasible++;
          else throw e;
        }
        rollback(mark); truncPc(pcMark);
        let log = d.log;
        while (log.length && !log[log.length - 1].alt) log = log.slice(0, -1);
        if (!log.length) break;
        const last = log[log.length - 1];
        script = [...log.slice(0, -1), { term: last.term, val: false, forced: false }];
      }
      break;
    } catch (e) {
      rollback(mark); truncPc(pcMark);
      if (e instanceof NeedFork && attempt < 60) { rec.restarts++; if (process.env.TSCV_FORK) console.error("FORK", e.sites.map((s) => s.kind + "|" + (s.getText ? s.getText().slice(0, 80).replace(/\s+/g, " ") : s.name)).join(" ### ")); let added = false; for (const s of e.sites) if (!nomerge.has(s)) { nomerge.add(s); added = true; } if (!added) { rec.unsupported = "cannot merge state"; break; } continue; }
      if (e instanceof Unsupported) { rec.unsupported = e.message; if (process.env.TSCV_DEBUG) console.error(e.stack); break; }
      rec.unsupported = "engine: " + (e && e.stack ? e.stack.split("\n").slice(0, 4).join(" | ") : e);
      if (process.env.TSCV_DEBUG) console.error(e);
      break;
    }
  }
  opt.proveTimeout = saveP;
  rec.ms = Date.now() - t0;
  rec.touched = [...touched.keys()];
  rec.imprecise = S.imprecise.v; S.imprecise.v = null;
  const obs = [...rec.obligations.values()];
  rec.nOb = obs.reduce((n, x) => n + x.proved + x.trivial + x.refuted + x.unknown, 0);
  rec.nProved = obs.reduce((n, x) => n + x.proved + x.trivial, 0);
  rec.refuted = obs.filter((x) => x.refuted);
  rec.unknowns = obs.filter((x) => x.unknown);
  rec.vacuous = [...rec.covers].filter(([, v]) => !v).map(([k]) => k);
  rec.status = rec.refuted.length ? "refuted" : rec.unsupported ? "unsupported" : rec.unknowns.length ? "unknown" : rec.paths === 0 || rec.nOb === 0 || rec.vacuous.length ? "vacuous" : "proved";
  return rec;
}
