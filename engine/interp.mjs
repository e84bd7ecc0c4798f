// Symbolic interpreter over the (type-erased by the TypeScript transpiler) syntax trees of the real sources.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
import * as t from "./terms.mjs";
import { S, weakNarrow, set, rollback, pushPc, truncPc, assume, known, decide, freshTerm, newDecider, region, mergeLoc, Sym, Union, JSymbol, JSThrow, Infeasible, Unsupported, NeedFork, sortOf, termOf, fromTerm, mkBool, mkNum, mkStr, mkAny, mergeValues, iteValue, mapU, mapUTerm, toVal, truthy, isNullish, strictEq, typeOfV, emptyStore, guardSeg, hooks } from "./core.mjs";
import { JObj, protos, newObj, newArr, arrOf, isObj, isFn, lookup, storeSet, storeDel, storeAcc, storeOverlay, entriesRope, ropeLen, ropeAt, normRope, isConcreteRope, concreteVals, srcElem, srcSeg, existsIdx, addUniversal, noteIndex, substValue, substRope, substStore, valueMentions, opaqueSrc, normKey, materialise, typed, anyT, rangeSrc, segLen } from "./heap.mjs";
const require = createRequire(import.meta.url);
export const ts = require("/opt/veriftools/node/node_modules/typescript");
const K = ts.SyntaxKind;
const TDZ = { tdz: true };
export class Cell { constructor(v) { this.v = v; this.id = S.objId++; this.ix = S.idxStack.length ? S.idxStack.slice() : null; } }
export class Scope {
  constructor(parent) { this.parent = parent; this.vars = new Map(); this.fn = null; this.id = S.objId++; this.ix = S.idxStack.length ? S.idxStack.slice() : null; }
  lookup(n) { let s = this; while (s) { const c = s.vars.get(n); if (c) return c; s = s.parent; } return null; }
  declare(n, v) { const c = new Cell(v); this.vars.set(n, c); return c; }
  fnScope() { let s = this; while (s && !s.fn) s = s.parent; return s; }
}
export const OK = { k: "ok", v: undefined };
export const globals = new Scope(null);
export const errCls = {};

// ---------- throwing ----------
export function mkError(cls, msg) {
  const e = new JObj("Error", protos[cls]);
  e.store = storeSet(storeSet(emptyStore, "message", msg), "stack", "");
  return e;
}
export const throwErr = (cls, msg) => { throw new JSThrow(mkError(cls, msg)); };

// ---------- native functions ----------
export function native(name, fn, ctor) {
  const f = new JObj("Function", protos.Function);
  f.native = fn; f.fname = name; f.nctor = ctor;
  return f;
}

// ---------- property access ----------
export function propKey(v) { // value -> string | Term(String)
  if (v instanceof JSymbol) return v.key;
  if (typeof v === "string") return v;
  if (typeof v === "number") return String(v);
  if (v instanceof Sym) {
    if (v.sort === "str") return v.term;
    if (v.sort === "num") return numToStr(v.term);
    if (v.sort === "bool") return t.ite(v.term, t.str("true"), t.str("false"));
    if (v.sort === "any") { if (known(t.is("VS", v.term)) === true || decide(t.is("VS", v.term))) return t.acc("vs", v.term); throw new Unsupported("property key of unknown kind"); }
  }
  if (v === undefined) return "undefined";
  if (v === null) return "null";
  if (v instanceof Union) { const x = split(v); return propKey(x); }
  if (typeof v === "boolean") return String(v);
  throw new Unsupported("property key " + sortOf(v));
}
export function numToStr(term) {
  if (term.op === "real" || term.op === "int") return t.str(String(term.data));
  const r = t.app("num2str", [t.toReal(term)], "String");
  const x = t.toReal(term);
  const dig = t.reRaw("(re.++ (re.range \"0\" \"9\") (re.* (re.range \"0\" \"9\")))");
  if (x.op === "to_real") pushPc(t.ite(t.ge(x.args[0], t.int(0)), t.inRe(r, dig), t.prefixof(t.str("-"), r)));
  return r;
}
// resolve a union to one alternative by deciding guards
export function split(v) {
  while (v instanceof Union) {
    const as = v.alts;
    let chosen = null;
    for (let i = 0; i < as.length - 1; i++) if (decide(as[i].g)) { chosen = as[i]; break; }
    if (!chosen) { chosen = as[as.length - 1]; if (known(chosen.g) === false) throw new Infeasible(); }
    v = chosen.v;
  }
  return v;
}
// narrow an 'any' to a kinded value
export function narrow(v) {
  v = split(v);
  if (!(v instanceof Sym) || v.sort !== "any") return v;
  const x = v.term;
  if (x.op === "ite") { return narrow(decide(x.args[0]) ? fromTerm("any", x.args[1]) : fromTerm("any", x.args[2])); }
  if (decide(t.is("VUndef", x))) return undefined;
  if (decide(t.is("VNull", x))) return null;
  if (decide(t.is("VS", x))) return mkStr(t.acc("vs", x));
  if (decide(t.is("VN", x))) return mkNum(t.acc("vn", x));
  if (decide(t.is("VB", x))) return mkBool(t.acc("vb", x));
  if (decide(t.is("VArr", x))) return materialise(x, "VArr");
  if (decide(t.is("VObj", x))) return materialise(x, "VObj");
  assume(t.is("VFun", x));
  return materialise(x, "VFun");
}
export function ownLookup(o, k) {
  if (o.cls === "Array" && o.rope) {
    if (k === "length") return { has: t.T, val: mkNum(t.toReal(ropeLen(o.rope))) };
    if (typeof k === "string" && /^\d+$/.test(k)) { const v = ropeAt(o.rope, t.int(+k)); return { has: t.lt(t.int(+k), ropeLen(o.rope)), val: v }; }
  }
  if (o.cls === "Function") {
    if (k === "name" || k === "length") { const r = lookup(o.store, k); if (r.has === t.T) return r; return { has: t.T, val: k === "name" ? (o.fname ?? "") : (o.node ? o.node.parameters.length : 0) }; }
    if (k === "prototype" && !o.isArrow && !o.native) {
      const r = lookup(o.store, "prototype"); if (r.has === t.T) return r;
      S.trailOff++; const p = newObj(); p.store = storeSet(p.store, "\uE000@ctor", o); o.store = storeSet(o.store, "prototype", p); S.trailOff--;
      return { has: t.T, val: p };
    }
  }
  if (o.exotic) { const r = o.exotic.get(k); if (r) return r; }
  return lookup(o.store, k);
}
export function* getPropObj(o, k, recv) {
  if (o.proxy) { const h = o.proxy.handler; const trap = yield* getPropObj(h, "get", h); if (trap !== undefined) return yield* call(trap, h, [o.proxy.target, typeof k === "string" ? keyToValue(k) : mkStr(k), recv]); return yield* getPropObj(o.proxy.target, k, recv); }
  if (typeof k !== "string" && o.cls === "Array" && o.rope) throw new Unsupported("symbolic string key on array");
  let cur = o; const alts = []; let rem = t.T;
  while (cur) {
    const r = ownLookup(cur, k);
    if (r.acc) {
      if (alts.length && rem !== t.T) { if (!decide(rem)) return mergeValues(alts); }
      if (!r.acc.get) return undefined;
      return yield* call(r.acc.get, recv, []);
    }
    if (r.has === t.T) { if (!alts.length) return r.val; alts.push({ g: rem, v: r.val }); return mergeValues(alts); }
    if (r.has !== t.F) {
      // presence undecided: for data objects the absent value is undefined, prototypes rarely matter
      alts.push({ g: t.and(rem, r.has), v: r.val });
      rem = t.and(rem, t.not(r.has));
    }
    cur = cur.proto;
    if (cur && cur.proxy) throw new Unsupported("proxy prototype");
  }
  if (!alts.length) return undefined;
  alts.push({ g: rem, v: undefined });
  return mergeValues(alts);
}
const symByKey = new Map();
export function mkSymbol(desc, reg) { if (reg && symByKey.has("\uE000@for:" + desc)) return symByKey.get("\uE000@for:" + desc); const s = new JSymbol(desc, reg); symByKey.set(s.key, s); return s; }
export const keyToValue = (k) => (k.startsWith("\uE000@") && symByKey.has(k) ? symByKey.get(k) : k);
const numIdx = (kv) => (typeof kv === "number" && Number.isInteger(kv)) || (kv instanceof Sym && kv.sort === "num");
export function* getV(o, kv) { // o[kv] with kv a value
  if (numIdx(kv)) {
    if (o instanceof Union) { const nn = yield* nonNullAlts(o, kv); if (nn !== o) return yield* getV(nn, kv); }
    let b = o instanceof Union || (o instanceof Sym && o.sort === "any") ? narrow(o) : o;
    const i = kv instanceof Sym ? t.toInt(kv.term) : t.int(kv);
    if (b instanceof JObj && b.cls === "Array" && b.rope) { if (i.op === "int" && i.data < 0) return undefined; return ropeAt(b.rope, i); }
    if (sortOf(b) === "str") {
      if (!(b instanceof Sym) && !(kv instanceof Sym)) return b[kv];
      const s = termOf(b);
      return iteValue(t.and(t.le(t.int(0), i), t.lt(i, t.strlen(s))), mkStr(t.substr(s, i, t.int(1))), undefined);
    }
    if (b instanceof JObj && b.u8) return b.u8[kv];
    return yield* get(b, propKey(kv));
  }
  return yield* get(o, propKey(kv));
}
function* nonNullAlts(v, k) {
  const g = isNullish(v);
  if (g === t.F) return v;
  if (decide(g)) throwErr("TypeError", `Cannot read properties of undefined (reading '${String(k)}')`);
  const as = v.alts.filter((a) => isNullish(a.v) !== t.T);
  return as.length === 1 ? as[0].v : new Union(as);
}
export function* get(v, k) {
  if (v instanceof Union) {
    v = yield* nonNullAlts(v, k);
    if (v instanceof Union) {
      const simple = v.alts.every((a) => a.v instanceof JObj && !a.v.proxy || (sortOf(a.v) === "str" && k === "length"));
      if (!simple) return yield* get(split(v), k);
      const out = [];
      for (const a of v.alts) out.push({ g: a.g, v: yield* get(a.v, k) });
      return mergeValues(out);
    }
  }
  if (v instanceof JObj) return yield* getPropObj(v, k, v);
  switch (sortOf(v)) {
    case "undef": case "null": throwErr("TypeError", `Cannot read properties of ${v} (reading '${String(k)}')`);
    case "str":
      if (k === "length") return v instanceof Sym ? mkNum(t.toReal(t.strlen(v.term))) : v.length;
      if (typeof k === "string" && /^\d+$/.test(k) && typeof v === "string") return v[k];
      return yield* getPropObj(protos.String, k, v);
    case "num": return yield* getPropObj(protos.Number, k, v);
    case "bool": return yield* getPropObj(protos.Boolean, k, v);
    case "symbol": if (k === "description") return v.desc; return yield* getPropObj(protos.Symbol, k, v);
    case "any": {
      const x = v.term;
      if (decide(t.or(t.is("VUndef", x), t.is("VNull", x)))) throwErr("TypeError", `Cannot read properties of undefined (reading '${String(k)}')`);
      return yield* get(narrow(v), k);
    }
  }
  throw new Unsupported("get on " + sortOf(v));
}
export function* put(o, k, val) {
  o = narrow(o);
  if (o === undefined || o === null) throwErr("TypeError", `Cannot set properties of ${o} (setting '${String(k)}')`);
  if (!(o instanceof JObj)) return;
  if (o.proxy) { const h = o.proxy.handler; const trap = yield* getPropObj(h, "set", h); if (trap !== undefined) { yield* call(trap, h, [o.proxy.target, keyToValue(k), val, o]); return; } return yield* put(o.proxy.target, k, val); }
  if (o.frozen) throwErr("TypeError", "Cannot assign to read only property");
  if (o.exotic?.put && o.exotic.put(k, val)) return;
  if (o.cls === "Uint8Array" && (typeof k !== "string" || /^\d+$/.test(k))) throw new Unsupported("typed array write");
  if (o.cls === "Array" && o.rope) {
    if (k === "length") { if (val === 0) { set(o, "rope", []); return; } throw new Unsupported("array length assignment"); }
    if (typeof k === "string" && /^\d+$/.test(k)) return putIndex(o, +k, val);
    if (typeof k !== "string") throw new Unsupported("symbolic array index write");
  }
  // setters on prototype chain
  let c = o;
  if (typeof k === "string") while (c) {
    for (let i = c.store.ents.length - 1; i >= 0; i--) { const e = c.store.ents[i]; if (e.k === k) { if (e.acc) { if (e.acc.set) { yield* call(e.acc.set, o, [val]); return; } throwErr("TypeError", "setter missing"); } break; } }
    if (c === o && c.store.base) break;
    c = c.proto;
  }
  set(o, "store", storeSet(o.store, k, val));
}
export function putIndex(o, i, val) {
  const r = normRope(o.rope);
  if (typeof i === "number" && isConcreteRope(r)) {
    const n = r.slice();
    while (n.length < i) n.push({ t: "e", g: t.T, v: undefined });
    n[i] = { t: "e", g: t.T, v: val };
    set(o, "rope", n);
    return;
  }
  if (typeof i === "number" && r.slice(0, i + 1).length === i + 1 && isConcreteRope(r.slice(0, i + 1))) {
    const n = r.slice(); n[i] = { t: "e", g: t.T, v: val }; set(o, "rope", n); return;
  }
  throw new Unsupported("write at index into symbolic sequence");
}
export function* putV(o, kv, val) {
  if (numIdx(kv)) {
    const b = narrow(o);
    if (b instanceof JObj && b.cls === "Array" && b.rope) {
      const i = kv instanceof Sym ? t.toInt(kv.term) : t.int(kv);
      if (i.op === "int") return putIndex(b, i.data, val);
      if (known(t.eq(i, ropeLen(b.rope))) === true) { set(b, "rope", [...b.rope, { t: "e", g: t.T, v: val }]); return; }
      // point update of an unknown index
      set(b, "rope", pointUpdate(b.rope, i, val));
      return;
    }
    return yield* put(b, propKey(kv), val);
  }
  return yield* put(o, propKey(kv), val);
}
function pointUpdate(rope, i, val) {
  const r = normRope(rope);
  if (r.length === 1 && r[0].t === "c" && r[0].g === t.T && (!r[0].items || (r[0].items.length === 1 && r[0].items[0].t === "e" && r[0].items[0].g === t.T))) {
    const s = r[0];
    const inR = t.and(t.le(t.int(0), i), t.lt(i, segLen(s)));
    if (!decide(inR)) throw new Unsupported("out of range array write");
    const j = t.iadd(s.lo, i);
    return [{ ...s, hi: j }, { t: "e", g: t.T, v: val }, { ...s, lo: t.iadd(j, t.int(1)) }];
  }
  throw new Unsupported("write at symbolic index");
}
export function hasPropTerm(o, k) {
  while (o instanceof JObj && o.proxy) { const h = o.proxy.handler; if (ownLookup(h, "has").has !== t.F) throw new Unsupported("proxy has trap"); o = o.proxy.target; }
  let cur = o, h = t.F;
  while (cur) { h = t.or(h, ownLookup(cur, k).has); if (h === t.T) return h; cur = cur.proto; }
  return h;
}

// ---------- calls ----------
let callDepth = 0;
export const stubs = new Map(); // qualified name -> function*(thisV,args, orig)
export const touched = new Map(); // qualified function names executed (from /repo)
export function* call(f, thisV, args, newTarget) {
  if (!(f instanceof JObj)) {
    f = narrow(f);
    if (!isFn(f)) throwErr("TypeError", "value is not a function");
  }
  if (f.proxy && f.proxy.target) {
    const h = f.proxy.handler; const trap = yield* getPropObj(h, "apply", h);
    if (trap !== undefined) return yield* call(trap, h, [f.proxy.target, thisV, arrOf(args)]);
    return yield* call(f.proxy.target, thisV, args, newTarget);
  }
  if (f.cls !== "Function") throwErr("TypeError", "value is not a function");
  if (f.native) return yield* f.native(thisV, args, newTarget);
  if (f.bound) return yield* call(f.bound.f, f.bound.thisV, [...f.bound.args, ...args], newTarget);
  if (f.stub && !f.stubOff) return yield* f.stub(thisV, args, f);
  if (++callDepth > 400) { callDepth = 0; throw new Unsupported("call depth exceeded"); }
  try { return yield* callClosure(f, thisV, args, newTarget); } finally { callDepth--; }
}
export function* construct(c, args, newTarget) {
  c = narrow(c);
  if (!isFn(c)) throwErr("TypeError", "not a constructor");
  newTarget = newTarget ?? c;
  if (c.proxy) throw new Unsupported("construct proxy");
  if (c.native) { if (!c.nctor) throwErr("TypeError", (c.fname || "value") + " is not a constructor"); const o = yield* c.nctor(args, newTarget); if (newTarget !== c && o instanceof JObj) { const pr = yield* get(newTarget, "prototype"); if (pr instanceof JObj && o.proto !== pr) o.proto = pr; } return o; }
  if (c.isArrow) throwErr("TypeError", "not a constructor");
  if (c.classNode && c.parentClass) {
    // derived: this created by super()
    const ctx = { thisV: TDZ, func: c, newTarget };
    const r = yield* runCtor(c, args, ctx);
    if (r instanceof JObj) return r;
    return ctx.thisV;
  }
  const proto = yield* get(newTarget, "prototype");
  const o = new JObj("Object", proto);
  const ctx = { thisV: o, func: c, newTarget };
  if (c.classNode) yield* initFields(c, o);
  const r = yield* runCtor(c, args, ctx);
  if (r instanceof JObj) return r;
  return o;
}
function* runCtor(c, args, ctx) {
  if (c.classNode) {
    if (!c.node) { // implicit constructor
      if (c.parentClass) { yield* superCall(ctx, args); }
      return undefined;
    }
    return yield* callClosure(c, undefined, args, ctx.newTarget, ctx);
  }
  return yield* callClosure(c, ctx.thisV, args, ctx.newTarget, ctx);
}
export function* superCall(ctx, args) {
  const parent = ctx.func.parentClass;
  const o = yield* construct(parent, args, ctx.newTarget);
  ctx.thisV = o;
  yield* initFields(ctx.func, o);
  return o;
}
function* initFields(c, o) {
  for (const m of c.classNode.members) {
    if (m.kind === K.PropertyDeclaration && !hasMod(m, K.StaticKeyword)) {
      const sc = new Scope(c.scope); sc.fn = { thisV: o, func: c, home: c.protoObj };
      const k = yield* propNameKey(m.name, sc);
      const v = m.initializer ? yield* evalNamed(m.initializer, sc, k) : undefined;
      set(o, "store", storeSet(o.store, k, v));
    }
  }
}
const hasMod = (n, k) => n.modifiers && n.modifiers.some((m) => m.kind === k);
export function* callClosure(f, thisV, args, newTarget, ctorCtx) {
  const node = f.node;
  if (f.qname && !S.trailOff) touched.set(f.qname, (touched.get(f.qname) || 0) + 1);
  const sc = new Scope(f.scope);
  if (!f.isArrow) { sc.fn = ctorCtx ?? { thisV, func: f, newTarget }; sc.fn.home = f.home; sc.fn.args = args; }
  else if (f.isAsync) sc.fnBoundary = true;
  const body = node.body;
  if (f.isGen) return makeGenerator(f, sc, args);
  if (f.isAsync) {
    const inner = function* () {
      yield* bindParams(node, args, sc);
      return yield* runBody(f, node, body, sc);
    };
    return yield* runAsync(inner);
  }
  const site = node;
  const thunk = function* () {
    const s2 = new Scope(f.scope); s2.fn = sc.fn;
    yield* bindParams(node, args, s2);
    return { k: "ok", v: yield* runBody(f, node, body, s2) };
  };
  const r = yield* region(site, thunk);
  return r.v;
}
function* runBody(f, node, body, sc) {
  if (body.kind !== K.Block) return yield* ev(body, sc);
  hoist(body, sc, true);
  const c = yield* execStmts(body.statements, sc);
  if (c.k === "return") return c.v;
  return undefined;
}
function* bindParams(node, args, sc) {
  let i = 0;
  for (const p of node.parameters) {
    if (p.dotDotDotToken) { yield* bindPattern(p.name, newArr(restSegs(args, i)), sc, true); break; }
    let v = argAt(args, i++);
    if (p.initializer) v = yield* defaulted(v, p.initializer, sc, p.name);
    yield* bindPattern(p.name, v, sc, true);
  }
}
export const argAt = (args, i) => args[i];
const restSegs = (args, i) => args.slice(i).map((v) => ({ t: "e", g: t.T, v }));
const isUndef = (v) => {
  switch (sortOf(v)) { case "undef": return t.T; case "any": return t.is("VUndef", v.term); case "union": return mapUTerm(v, isUndef); default: return t.F; }
};
export { isUndef };
function* defaulted(v, init, sc, nameNode) {
  const u = isUndef(v);
  if (u === t.F) return v;
  if (u === t.T) return yield* evalNamed(init, sc, nameNode && nameNode.kind === K.Identifier ? nameNode.text : "");
  const r = yield* region(init, function* () { return { k: "ok", v: decide(u) ? yield* ev(init, sc) : without(v, isUndef) }; });
  return r.v;
}
// remove alternatives for which pred is T
export function without(v, pred) {
  if (!(v instanceof Union)) return v;
  const as = v.alts.filter((a) => pred(a.v) !== t.T);
  if (as.length === 0) return v;
  return as.length === 1 ? as[0].v : new Union(as);
}
export function* bindPattern(name, v, sc, declare) {
  if (name.kind === K.Identifier) {
    if (declare) { const c = sc.vars.get(name.text); if (c && declare !== "var") { set(c, "v", v); } else if (declare === "var") { set(sc.lookup(name.text), "v", v); } else sc.declare(name.text, v); }
    else yield* assignTo(name, v, sc);
    return;
  }
  if (name.kind === K.ObjectBindingPattern) {
    const nn = isNullish(v);
    if (nn !== t.F && decide(nn)) throwErr("TypeError", "Cannot destructure undefined");
    if (v instanceof Union) v = without(v, isNullish);
    const used = [];
    for (const el of name.elements) {
      if (el.dotDotDotToken) { yield* bindPattern(el.name, yield* objectRest(v, used), sc, declare); continue; }
      const k = el.propertyName ? yield* propNameKey(el.propertyName, sc) : el.name.text;
      used.push(k);
      let x = yield* get(v, k);
      if (el.initializer) x = yield* defaulted(x, el.initializer, sc, el.name);
      yield* bindPattern(el.name, x, sc, declare);
    }
    return;
  }
  if (name.kind === K.ArrayBindingPattern) {
    yield* bindArrayPattern(name.elements, v, function* (el, x) {
      if (el.initializer) x = yield* defaulted(x, el.initializer, sc, el.name);
      yield* bindPattern(el.name, x, sc, declare);
    });
    return;
  }
  throw new Unsupported("pattern " + K[name.kind]);
}
function* bindArrayPattern(elements, v, f) {
  const a = narrow(v);
  const r = yield* iterToRope(a);
  let i = 0;
  for (const el of elements) {
    if (el.kind === K.OmittedExpression) { i++; continue; }
    if (el.dotDotDotToken) {
      if (!isConcreteRope(r.slice(0, i))) throw new Unsupported("array rest of symbolic sequence");
      yield* f(el, newArr(r.slice(i))); break;
    }
    yield* f(el, ropeAt(r, t.int(i++)));
  }
}
export function* objectRest(v, used) {
  v = narrow(v);
  const o = newObj();
  o.store = yield* enumerableStore(v);
  for (const k of used) o.store = storeDel(o.store, k);
  return o;
}
// store of own enumerable data properties (evaluating getters is not supported except on plain data)
export function* enumerableStore(v) {
  if (!(v instanceof JObj)) {
    if (typeof v === "string") { let s = emptyStore; [...v].forEach((c, i) => { s = storeSet(s, String(i), c); }); return s; }
    return emptyStore;
  }
  if (v.cls === "Array" && v.rope) {
    const r = normRope(v.rope);
    if (!isConcreteRope(r)) throw new Unsupported("spread of symbolic array into object");
    let s = emptyStore; r.forEach((e, i) => { s = storeSet(s, String(i), e.v); }); return s;
  }
  if (v.exotic && v.exotic.entries) { let s = emptyStore; for (const [k, x] of v.exotic.entries()) s = storeSet(s, k, x); return s; }
  if (v.store.ents.some((e) => e.hidden || (typeof e.k === "string" && e.k.startsWith("\uE000@ctor")))) return { base: v.store.base, ents: v.store.ents.filter((e) => !e.hidden && !(typeof e.k === "string" && e.k.startsWith("\uE000@ctor"))) };
  return v.store;
}
export function* spreadInto(store, v) {
  if (v instanceof Union) {
    for (const a of v.alts) {
      if (isNullish(a.v) === t.T || !(a.v instanceof JObj || typeof a.v === "string" || (a.v instanceof Sym && a.v.sort === "any"))) continue;
      if (a.v instanceof JObj) store = storeOverlay(store, yield* enumerableStore(a.v), a.g);
      else {
        const av = a.v;
        if (decide(a.g)) return yield* spreadInto(store, narrow(av));
      }
    }
    return store;
  }
  v = narrow(v);
  if (v instanceof JObj) return storeOverlay(store, yield* enumerableStore(v), t.T);
  if (typeof v === "string") return storeOverlay(store, yield* enumerableStore(v), t.T);
  return store;
}
function* propNameKey(n, sc) {
  switch (n.kind) {
    case K.Identifier: return n.text;
    case K.PrivateIdentifier: return "\uE000@priv" + n.text;
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return n.text;
    case K.NumericLiteral: return String(Number(n.text));
    case K.ComputedPropertyName: return propKey(yield* ev(n.expression, sc));
  }
  throw new Unsupported("property name " + K[n.kind]);
}

// ---------- scopes ----------
const hoistMemo = new WeakMap();
function collectVars(node, out) {
  ts.forEachChild(node, (c) => {
    if (ts.isFunctionLike(c) || ts.isClassLike(c)) return;
    if (c.kind === K.VariableDeclarationList && !(c.flags & ts.NodeFlags.BlockScoped)) for (const d of c.declarations) collectNames(d.name, out);
    collectVars(c, out);
  });
}
function collectNames(n, out) { if (n.kind === K.Identifier) out.push(n.text); else for (const e of n.elements) if (e.name) collectNames(e.name, out); }
function hoist(block, sc, isFn) {
  let h = hoistMemo.get(block);
  if (!h) {
    h = { vars: [], fns: [], lets: [], classes: [] };
    if (isFn) collectVars(block, h.vars);
    for (const s of block.statements ?? []) {
      if (s.kind === K.FunctionDeclaration) h.fns.push(s);
      else if (s.kind === K.VariableStatement && (s.declarationList.flags & ts.NodeFlags.BlockScoped)) for (const d of s.declarationList.declarations) collectNames(d.name, h.lets);
      else if (s.kind === K.ClassDeclaration && s.name) h.lets.push(s.name.text);
    }
    hoistMemo.set(block, h);
  }
  for (const v of h.vars) if (!sc.vars.has(v)) sc.declare(v, undefined);
  for (const l of h.lets) sc.declare(l, TDZ);
  for (const f of h.fns) if (f.body) sc.declare(f.name ? f.name.text : "*default*", mkClosure(f, sc));
}
export function mkClosure(node, sc, extra) {
  const f = new JObj("Function", protos.Function);
  f.node = node; f.scope = sc;
  f.isArrow = node.kind === K.ArrowFunction;
  f.isAsync = !!(ts.getCombinedModifierFlags(node) & ts.ModifierFlags.Async) || hasMod(node, K.AsyncKeyword);
  f.isGen = !!node.asteriskToken;
  f.fname = node.name && node.name.text ? node.name.text : "";
  if (extra) Object.assign(f, extra);
  const sf = node.getSourceFile();
  if (sf && sf.repoPath) { f.qname = sf.repoPath + "#" + qualName(node); const st = stubs.get(f.qname); if (st) f.stub = st; }
  return f;
}
const qnMemo = new WeakMap();
function qualName(node) {
  let q = qnMemo.get(node);
  if (q) return q;
  const parts = [];
  let n = node;
  while (n && n.kind !== K.SourceFile) {
    if (ts.isFunctionLike(n) || ts.isClassLike(n)) {
      let nm = n.kind === K.Constructor ? "constructor" : n.name ? n.name.getText?.() ?? n.name.text : null;
      if (!nm && n.parent && (n.parent.kind === K.VariableDeclaration || n.parent.kind === K.PropertyAssignment || n.parent.kind === K.PropertyDeclaration) && n.parent.name) nm = n.parent.name.text;
      parts.unshift(nm ?? "<anon>");
    }
    n = n.parent;
  }
  q = parts.join(".");
  qnMemo.set(node, q);
  return q;
}

// ---------- statements ----------
function* execStmts(stmts, sc) {
  for (const s of stmts) {
    const c = yield* exec(s, sc);
    if (c.k !== "ok") return c;
  }
  return OK;
}
export function* exec(n, sc) {
  if (++S.steps > S.maxSteps) throw new Unsupported("step budget exceeded");
  switch (n.kind) {
    case K.ExpressionStatement: yield* ev(n.expression, sc); return OK;
    case K.VariableStatement: yield* declareVars(n.declarationList, sc); return OK;
    case K.FunctionDeclaration: case K.EmptyStatement: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.ImportDeclaration: case K.ExportDeclaration: return OK;
    case K.ClassDeclaration: { const c = yield* evalClass(n, sc); if (n.name) { const cell = sc.vars.get(n.name.text) ?? sc.declare(n.name.text, TDZ); set(cell, "v", c); } else set(sc.declare("*default*", TDZ), "v", c); return OK; }
    case K.ReturnStatement: return { k: "return", v: n.expression ? yield* ev(n.expression, sc) : undefined };
    case K.IfStatement: return yield* execIf(n, sc);
    case K.Block: { const s2 = new Scope(sc); hoist(n, s2, false); return yield* execStmts(n.statements, s2); }
    case K.ThrowStatement: throw new JSThrow(yield* ev(n.expression, sc));
    case K.TryStatement: return yield* execTry(n, sc);
    case K.ForOfStatement: return yield* execForOf(n, sc, null);
    case K.ForInStatement: return yield* execForIn(n, sc, null);
    case K.ForStatement: return yield* execFor(n, sc, null);
    case K.WhileStatement: return yield* execWhile(n, sc, null, false);
    case K.DoStatement: return yield* execWhile(n, sc, null, true);
    case K.BreakStatement: return { k: "break:" + (n.label ? n.label.text : "") };
    case K.ContinueStatement: return { k: "continue:" + (n.label ? n.label.text : "") };
    case K.SwitchStatement: return yield* execSwitch(n, sc);
    case K.LabeledStatement: {
      const b = n.statement, l = n.label.text;
      let c;
      if (b.kind === K.ForOfStatement) c = yield* execForOf(b, sc, l);
      else if (b.kind === K.ForStatement) c = yield* execFor(b, sc, l);
      else if (b.kind === K.WhileStatement) c = yield* execWhile(b, sc, l, false);
      else c = yield* exec(b, sc);
      return c.k === "break:" + l ? OK : c;
    }
    case K.ExportAssignment: { const v = yield* ev(n.expression, sc); (sc.vars.get("*default*") ?? sc.declare("*default*")).v = v; return OK; }
  }
  throw new Unsupported("statement " + K[n.kind]);
}
function* declareVars(list, sc) {
  const isVar = !(list.flags & ts.NodeFlags.BlockScoped);
  for (const d of list.declarations) {
    if (isVar && !d.initializer) continue;
    const v = d.initializer ? yield* evalNamed(d.initializer, sc, d.name.kind === K.Identifier ? d.name.text : "") : undefined;
    yield* bindPattern(d.name, v, sc, isVar ? "var" : true);
  }
}
function* execIf(n, sc) {
  const c = truthy(yield* ev(n.expression, sc));
  const k = c === t.T ? true : c === t.F ? false : known(c);
  if (k === true) return yield* execScoped(n.thenStatement, sc);
  if (k === false) return n.elseStatement ? yield* execScoped(n.elseStatement, sc) : OK;
  return yield* region(n, function* () {
    if (decide(c)) { return yield* execScoped(n.thenStatement, sc); }
    return n.elseStatement ? yield* execScoped(n.elseStatement, sc) : OK;
  });
}
const execScoped = (s, sc) => exec(s, sc);
function* execTry(n, sc) {
  const body = function* () {
    let c;
    try { c = yield* exec(n.tryBlock, sc); }
    catch (e) {
      if (!(e instanceof JSThrow) || !n.catchClause) throw e;
      const s2 = new Scope(sc);
      if (n.catchClause.variableDeclaration) yield* bindPattern(n.catchClause.variableDeclaration.name, e.value, s2, true);
      hoist(n.catchClause.block, s2, false);
      c = yield* execStmts(n.catchClause.block.statements, s2);
    }
    return c;
  };
  if (!n.finallyBlock) return yield* region(n, body);
  let c, thrown = null;
  try { c = yield* body(); }
  catch (e) {
    if (!(e instanceof JSThrow) && !(e instanceof GenReturn)) throw e;
    thrown = e;
  }
  const f = yield* exec(n.finallyBlock, sc);
  if (f.k !== "ok") return f;
  if (thrown) throw thrown;
  return c;
}
export class GenReturn { constructor(v) { this.value = v; } }
function* execSwitch(n, sc) {
  const v = yield* ev(n.expression, sc);
  return yield* region(n, function* () {
    const s2 = new Scope(sc);
    const clauses = n.caseBlock.clauses;
    let start = -1;
    for (let i = 0; i < clauses.length; i++) {
      if (clauses[i].kind === K.DefaultClause) continue;
      const e = strictEq(v, yield* ev(clauses[i].expression, s2));
      if (decide(e)) { start = i; break; }
    }
    if (start < 0) start = clauses.findIndex((c) => c.kind === K.DefaultClause);
    if (start < 0) return OK;
    for (const cl of clauses) for (const st of cl.statements) if (st.kind === K.VariableStatement && (st.declarationList.flags & ts.NodeFlags.BlockScoped)) { const names = []; for (const d of st.declarationList.declarations) collectNames(d.name, names); for (const nm of names) if (!s2.vars.has(nm)) s2.declare(nm, TDZ); }
    for (let i = start; i < clauses.length; i++) {
      const c = yield* execStmts(clauses[i].statements, s2);
      if (c.k === "break:") return OK;
      if (c.k !== "ok") return c;
    }
    return OK;
  });
}

// ---------- iteration ----------
// turn an iterable value into a rope
export function* iterToRope(v) {
  v = narrow(v);
  if (typeof v === "string") return [...v].map((c) => ({ t: "e", g: t.T, v: c }));
  if (v instanceof JObj) {
    if (v.cls === "Array" && v.rope) return v.rope;
    if (v.cls === "Set") return [{ t: "u", g: t.T, rope: v.rope }].flatMap((s) => (isConcreteRope(v.rope) && v.distinct ? v.rope : simplifyUniq(s)));
    if (v.cls === "Map") return mapEntriesRope(v).map(pairSeg);
    if (v.iterRope) return v.iterRope;
    if (v.cls === "Generator") { return yield* drainSync(v); }
    const it = yield* get(v, "\uE000@iterator");
    if (it !== undefined) {
      const iter = yield* call(it, v, []);
      if (iter instanceof JObj && iter.iterRope) return iter.iterRope;
      if (iter instanceof JObj && iter.cls === "Generator") return yield* drainSync(iter);
      const out = [];
      const next = yield* get(iter, "next");
      for (let i = 0; i < 10000; i++) {
        const r = yield* call(next, iter, []);
        if (decide(truthy(yield* get(r, "done")))) return out;
        out.push({ t: "e", g: t.T, v: yield* get(r, "value") });
      }
      throw new Unsupported("iterator too long");
    }
  }
  if (v instanceof Sym && v.sort === "str") throw new Unsupported("iteration over symbolic string");
  throwErr("TypeError", "value is not iterable");
}
export function simplifyUniq(s) {
  if (s.rope.every((e) => e.t === "e" && e.g === t.T && !(e.v instanceof Sym) && !(e.v instanceof Union))) {
    const seen = new Set(); const out = [];
    for (const e of s.rope) if (!seen.has(e.v)) { seen.add(e.v); out.push(e); }
    return out;
  }
  if (s.rope.length <= 8 && s.rope.every((e) => e.t === "e")) { // first occurrences, by pairwise comparison
    const out = [];
    for (const e of s.rope) { let g = t.and(s.g, e.g); for (const p of out) g = t.and(g, t.not(t.and(p.g0, strictEq(p.v, e.v)))); out.push({ t: "e", g, g0: t.and(s.g, e.g), v: e.v }); }
    return out.filter((e) => e.g !== t.F).map((e) => ({ t: "e", g: e.g, v: e.v }));
  }
  return [s];
}
export const pairSeg = (s) => s.t === "e" ? { ...s, v: arrOf([s.v.key, s.v.val]) } : { ...s, items: s.items.map(pairSeg) };
export const valSeg = (s) => s.t === "e" ? { ...s, v: s.v.val } : { ...s, items: s.items.map(valSeg) };
export const keySeg = (s) => s.t === "e" ? { ...s, v: s.v.key } : { ...s, items: s.items.map(keySeg) };
export function mapEntriesRope(m) {
  const fix = (s) => s.t === "e" ? { ...s, v: { key: m.keyVals.get(s.v.key) ?? (typeof s.v.key === "string" && s.v.key.startsWith("\u0000") ? m.keyVals.get(s.v.key) : s.v.key), val: s.v.val } } : { ...s, items: s.items.map(fix) };
  return entriesRope(m.mstore).map(fix);
}
// run bodyFn over each element; bodyFn: function*(elem, indexTerm) -> completion
// returns completion: ok | abrupt (break handled by caller)
const elemSites = new WeakMap();
const elemSite = (x) => { if (!x || typeof x !== "object") return x; let e = elemSites.get(x); if (!e) elemSites.set(x, (e = { elem: true })); return e; };
export function* iterateRope(site, rope, bodyFn, label) {
  rope = normRope(rope);
  let off = t.int(0);
  const isCont = (c) => c.k === "ok" || c.k === "continue:" || (label && c.k === "continue:" + label);
  for (const s of rope) {
    if (s.t === "e") {
      let c;
      if (s.g === t.T) c = yield* bodyFn(s.v, off);
      else { const o2 = off; c = yield* region(elemSite(site), function* () { if (decide(s.g)) { const r = yield* bodyFn(s.v, o2); return isCont(r) ? OK : r; } return OK; }); }
      if (!isCont(c)) return c;
    } else {
      const c = yield* iterGeneric(site, s, bodyFn, off, isCont);
      if (!isCont(c)) return c;
    }
    off = t.iadd(off, segLen(s));
  }
  return OK;
}
const locKey = (o, k) => k;
function* exploreRaw(site, thunk) { // like region but returns outcomes, no merging
  const outer = S.decider;
  const mark = S.trail.length, pcMark = S.pc.length;
  const outs = [];
  S.regions.push(site);
  const depth = S.regions.length;
  let script = [];
  try {
    for (;;) {
      const d = newDecider(script);
      S.decider = d;
      let comp;
      try { comp = yield* thunk(); }
      catch (e) {
        if (e instanceof JSThrow) comp = { k: "throw", v: e.value };
        else if (e instanceof Infeasible) comp = null;
        else throw e;
      }
      const free = d.log.filter((e) => !e.forced);
      if (comp) {
        const ds = new Set(d.log.map((e) => (e.val ? e.term : t.not(e.term))).flatMap((x) => (x.op === "and" ? x.args : [x])).map((x) => x.id));
        const facts = S.pc.slice(pcMark).filter((x) => !ds.has(x.id));
        const delta = new Map();
        for (let i = mark; i < S.trail.length; i += 3) {
          const o = S.trail[i], k = S.trail[i + 1];
          let m = delta.get(o); if (!m) delta.set(o, (m = new Map()));
          if (!m.has(k)) m.set(k, o[k]);
        }
        outs.push({ g: t.and(...free.map((e) => (e.val ? e.term : t.not(e.term)))), comp, facts, delta });
      }
      rollback(mark); truncPc(pcMark);
      let log = d.log;
      while (log.length && !log[log.length - 1].alt) log = log.slice(0, -1);
      if (!log.length) break;
      const last = log[log.length - 1];
      script = [...log.slice(0, -1), { term: last.term, val: false, forced: false }];
    }
  } finally { S.decider = outer; S.regions.length = depth - 1; rollback(mark); truncPc(pcMark); }
  return outs;
}
let havocN = 0;
function freshLike(base, vals) { // fresh value over-approximating the given sample values
  const alts = []; const seen = new Set();
  const mk = (s) => {
    switch (s) {
      case "num": return mkNum(freshTerm(base, "Real"));
      case "str": return mkStr(freshTerm(base, "String"));
      case "bool": return mkBool(freshTerm(base, "Bool"));
      case "any": return mkAny(freshTerm(base, "Val"));
    }
  };
  const all = [];
  for (const v of vals) { if (v instanceof Union) all.push(...v.alts.map((a) => a.v)); else all.push(v); }
  const objs = new Set(); const sorts = new Set();
  for (const v of all) { const s = sortOf(v); if (s === "obj" || s === "symbol" || s === "bigint") objs.add(v); else sorts.add(s); }
  for (const s of sorts) alts.push(s === "undef" ? undefined : s === "null" ? null : mk(s));
  for (const o of objs) alts.push(o);
  if (alts.length === 1) return alts[0];
  let rem = t.T; const out = [];
  alts.forEach((v, i) => { const g = i === alts.length - 1 ? rem : t.and(rem, freshTerm(base + "g", "Bool")); out.push({ g, v }); rem = t.and(rem, t.not(g)); });
  return mergeValues(out);
}
// generic iteration over a comprehension / source segment
export function* iterGeneric(site, seg, bodyFn, off, isCont) {
  const idx0 = seg.idx;
  if (seg.t === "u") { return yield* iterUniq(site, seg, bodyFn, off, isCont); }
  let idx = idx0;
  if (S.idxStack.includes(idx)) { idx = t.cst("ix" + S.idxStack.length + "$" + S.fresh.n, "Int"); set(S.fresh, "n", S.fresh.n + 1); }
  const ren = idx === idx0 ? new Map() : new Map([[idx0, idx]]);
  if (seg.g !== t.T) {
    if (!decide(seg.g)) return OK;
  }
  const elems = () => (seg.items ? substRope(seg.items, ren) : [{ t: "e", g: t.T, v: srcElem(seg.src, idx) }]);
  const inRange = t.and(t.le(seg.lo, idx), t.lt(idx, seg.hi));
  // empty range shortcut
  if (known(t.lt(seg.lo, seg.hi)) === false) return OK;
  const simple = !seg.items || (seg.items.length === 1 && seg.items[0].t === "e" && seg.items[0].g === t.T);
  const runOnce = function* () {
    assume(inRange);
    noteIndex(seg.src, idx);
    const posT = simple ? t.iadd(off, t.isub(idx, seg.lo)) : freshTerm("pos", "Int");
    return yield* iterateRope(site, elems(), (v) => bodyFn(v, posT));
  };
  const objMark = S.objId;
  const mods = new Map(); // obj -> Map(key -> {keys:Set|null})
  let outs, havocs;
  for (let round = 0; ; round++) {
    if (round > 6) throw new Unsupported("loop effects do not stabilise");
    const mark = S.trail.length, pcMark = S.pc.length;
    S.idxStack.push(idx);
    havocs = new Map();
    try {
      for (const [o, m] of mods) for (const [k, info] of m) {
        const h = havocLoc(o, k, info);
        if (!havocs.has(o)) havocs.set(o, new Map());
        havocs.get(o).set(k, h);
        set(o, k, h.val);
      }
      const hpc = S.pc.slice(pcMark);
      outs = yield* exploreRaw(site, runOnce);
      for (const o of outs) o.hpc = hpc;
    } finally { S.idxStack.pop(); rollback(mark); truncPc(pcMark); }
    let changed = false;
    for (const o of outs) for (const [ob, m] of o.delta) {
      if (ob instanceof JObj && ob.symTerm && t.mentions(ob.symTerm, idx)) { for (const k of m.keys()) if (k === "store" || k === "rope" || k === "mstore") throw new Unsupported("loop changes the elements of an unknown sequence"); continue; }
      if ((ob instanceof JObj ? !ob.symTerm : ob instanceof Cell) && ob.id >= objMark) continue;
      if (ob === S.fresh || ob === S.univ || ob === S.insts || ob === S.imprecise) continue;
      if (ob instanceof Cell && ob.loopLocal) continue;
      if (ob === S.rejections) {
        // a promise rejected and handled within one iteration needs no tracking afterwards
        const left = (m.get("v") ?? []).filter((p) => !ob.v.includes(p) && !(o.delta.get(p)?.get("handled") ?? p.handled));
        o.rejected = left;
        continue;
      }
      for (const [k, nv] of m) {
        const oldV = havocs.get(ob)?.has(k) ? havocs.get(ob).get(k).val : ob[k];
        if (nv === oldV) continue;
        if (!mods.has(ob)) mods.set(ob, new Map());
        const mm = mods.get(ob);
        const info = locDelta(ob, k, oldV, nv);
        if (process.env.TSCV_LOOP) console.error("loop", round, ob.constructor.name, ob.name ?? ob.cls ?? "", ob.id ?? "", k, info.type, info.keys ? [...info.keys] : "", info.sym ?? "", info.vals instanceof Map ? "" : info.vals);
        if (!mm.has(k)) { mm.set(k, info); changed = true; }
        else if (mergeInfo(mm.get(k), info)) changed = true;
      }
    }
    if (!changed) break;
  }
  // cells of scopes created inside body are unreachable afterwards
  const abrupt = outs.filter((o) => !isCont(o.comp));
  const B = t.or(...abrupt.map((o) => o.g));
  const havocSyms = new Set(); for (const m of havocs.values()) for (const h of m.values()) for (const x of h.syms) havocSyms.add(x);
  const dependsHavoc = (term) => { for (const h of havocSyms) if (t.mentions(term, h)) return true; return false; };
  let hi = seg.hi, exitAt = null;
  if (abrupt.length) {
    if (dependsHavoc(B)) {
      S.imprecise.v = S.imprecise.v ?? "loop exit depends on loop-carried state";
      const ex = freshTerm("exit", "Bool");
      if (decide(ex)) { exitAt = freshTerm("exitAt", "Int"); assume(t.and(t.le(seg.lo, exitAt), t.lt(exitAt, seg.hi))); noteIndex(seg.src, exitAt); hi = exitAt; }
    } else {
      const { ex, j } = existsIdx(seg.src, seg.lo, seg.hi, idx, B, "first");
      if (decide(ex)) { exitAt = j; hi = j; }
    }
  }
  const normal = outs.filter((o) => isCont(o.comp));
  // facts valid at each iteration
  for (const o of normal) for (const f of o.facts) if (!dependsHavoc(f) && !dependsHavoc(o.g)) { const body = t.implies(o.g, f); if (t.mentions(body, idx)) addUniversal(seg.src, seg.lo, hi, idx, body); else pushPc(t.implies(t.lt(seg.lo, hi), body)); }
  // objects and variables created by an iteration keep the contents they had at its end (one copy per index)
  const seal = S.sealing; S.sealing = true;
  try { for (const o of normal) for (const [ob, m] of o.delta) if ((ob instanceof JObj || ob instanceof Cell) && ob.id >= objMark) for (const [k, v] of m) set(ob, k, v); }
  finally { S.sealing = seal; }
  { const left = normal.flatMap((o) => o.rejected ?? []); if (left.length) set(S.rejections, "v", [...S.rejections.v, ...left]); }
  // summarise effects
  for (const [ob, m] of mods) for (const [k, info] of m) {
    const h = havocs.get(ob).get(k);
    set(ob, k, summarise(ob, k, info, h, normal, seg, idx, hi, dependsHavoc, inRange));
  }
  if (exitAt) {
    const ex2 = new Map([[idx0, exitAt]]);
    const els = seg.items ? substRope(seg.items, ex2) : [{ t: "e", g: t.T, v: srcElem(seg.src, exitAt) }];
    const posT = simple ? t.iadd(off, t.isub(exitAt, seg.lo)) : freshTerm("pos", "Int");
    const c = yield* iterateRope(site, els, (v) => bodyFn(v, posT));
    if (isCont(c)) throw new Infeasible();
    return c;
  }
  return OK;
}
function* iterUniq(site, seg, bodyFn, off, isCont) {
  // unique elements: generic member of the underlying sequence
  S.imprecise.v = S.imprecise.v ?? "iteration over a de-duplicated sequence";
  throw new Unsupported("iteration over de-duplicated symbolic sequence");
}
function locDelta(ob, k, oldV, nv) {
  if (k === "store" || k === "mstore") {
    const keys = new Set(); let sym = false;
    const oldE = new Set((oldV ?? emptyStore).ents);
    for (const e of nv.ents) if (!oldE.has(e)) { if (e.bulk || e.ov || e.opaque || typeof e.k !== "string") sym = true; else keys.add(e.k); }
    for (const e of (oldV ?? emptyStore).ents) if (!nv.ents.includes(e)) { if (typeof e.k === "string") keys.add(e.k); else sym = true; }
    const vals = new Map(); for (const kk of keys) vals.set(kk, [lookup(nv, kk).val, lookup(oldV ?? emptyStore, kk).val]);
    return { type: "store", keys, sym, vals };
  }
  if (k === "rope") return { type: "rope" };
  if (k === "v") return { type: "v", vals: [oldV, nv] };
  return { type: "host", vals: [oldV, nv] };
}
function mergeInfo(a, b) {
  if (a.type === "store") {
    let ch = false;
    if (b.sym && !a.sym) { a.sym = true; ch = true; }
    for (const k of b.keys) if (!a.keys.has(k)) { a.keys.add(k); a.vals.set(k, b.vals.get(k)); ch = true; }
      else { const vs = a.vals.get(k); for (const v of b.vals.get(k)) if (!coveredBy(v, vs)) { vs.push(v); ch = true; } }
    return ch;
  }
  if (a.type === "v") { let ch = false; for (const v of b.vals) if (!coveredBy(v, a.vals)) { a.vals.push(v); ch = true; } return ch; }
  return false;
}
function coveredBy(v, vs) {
  const all = []; for (const x of vs) { if (x instanceof Union) all.push(...x.alts.map((a) => a.v)); else all.push(x); }
  const mine = v instanceof Union ? v.alts.map((a) => a.v) : [v];
  return mine.every((m) => { const s = sortOf(m); return all.some((a) => (s === "obj" ? a === m : sortOf(a) === s)); });
}
function symsOf(v, out) { if (v instanceof Sym) out.add(v.term.op === "str.len" ? v.term : v.term); else if (v instanceof Union) for (const a of v.alts) { out.add(a.g); symsOf(a.v, out); } return out; }
function havocLoc(o, k, info) {
  if (info.type === "v") { const v = freshLike("hv", info.vals); return { val: v, syms: symsOf(v, new Set()) }; }
  if (info.type === "store") {
    let s = o[k] ?? emptyStore; const syms = new Set(); const byKey = new Map();
    if (info.sym) { const op = freshTerm("hs", "Val"); syms.add(op); s = { base: s.base, ents: [...s.ents, { opaque: op, g: t.T }] }; }
    for (const key of info.keys) { const v = freshLike("hk", info.vals.get(key)); symsOf(v, syms); byKey.set(key, v); s = storeSet(s, key, v); }
    return { val: s, syms, byKey };
  }
  if (info.type === "rope") {
    const src = opaqueSrc(anyT);
    const seg = srcSeg(src);
    return { val: [...o[k], seg], syms: new Set([src.term, src.n]), seg };
  }
  throw new Unsupported("loop modifies host state " + k);
}
function summarise(ob, k, info, h, outs, seg, idx, hi, dependsHavoc, inRange) {
  const src = seg.src, lo = seg.lo;
  if (info.type === "rope") {
    const items = []; let bad = false;
    for (const o of outs) {
      const nv = o.delta.get(ob)?.get(k) ?? h.val;
      if (nv.length < h.val.length || !h.val.every((s, i) => nv[i] === s)) { bad = true; break; }
      for (const s of nv.slice(h.val.length)) items.push(guardSeg(s, o.g));
    }
    if (!bad && items.some((s) => dependsHavoc(s.g) || [...h.syms].some((x) => valueMentionsSeg(s, x)))) bad = true;
    if (bad) { S.imprecise.v = S.imprecise.v ?? "accumulator depends on loop-carried state"; return [...ob[k], srcSeg(opaqueSrc(anyT))]; }
    if (!items.length) return ob[k];
    return [...ob[k], { t: "c", g: t.T, src, lo, hi, idx, items: mergeItems(items) }];
  }
  if (info.type === "store") {
    let s = ob[k] ?? emptyStore;
    if (info.sym) {
      const items = []; let bad = info.keys.size > 0;
      for (const o of outs) {
        const nv = o.delta.get(ob)?.get(k); if (!nv) continue;
        const n0 = h.val.ents.length;
        if (!h.val.ents.every((e, i) => nv.ents[i] === e)) { bad = true; break; }
        for (const e of nv.ents.slice(n0)) { if (e.bulk || e.ov || e.opaque || e.del) { bad = true; break; } items.push({ g: t.and(o.g, e.g), k: e.k, v: e.v }); }
      }
      if (!bad && items.some((it) => dependsHavoc(it.g) || dependsHavoc(typeof it.k === "string" ? t.T : it.k))) bad = true;
      if (bad) { S.imprecise.v = S.imprecise.v ?? "dictionary accumulator depends on loop-carried state"; return { base: s.base, ents: [...s.ents, { opaque: freshTerm("hs", "Val"), g: t.T }] }; }
      return { base: s.base, ents: [...s.ents, { bulk: { src, lo, hi, idx, items: mergeKeyed(items) }, g: t.T }] };
    }
    for (const key of info.keys) {
      const oldV = lookup(s, key).val;
      s = storeSet(s, key, foldScalar(outs.map((o) => ({ g: o.g, v: (() => { const nv = o.delta.get(ob)?.get(k); return nv ? lookup(nv, key).val : h.byKey.get(key); })() })), h.byKey.get(key), oldV, info.vals.get(key), src, lo, hi, idx, dependsHavoc));
    }
    return s;
  }
  if (info.type === "v") return foldScalar(outs.map((o) => ({ g: o.g, v: o.delta.get(ob)?.has(k) ? o.delta.get(ob).get(k) : h.val })), h.val, ob[k], info.vals, src, lo, hi, idx, dependsHavoc);
  throw new Unsupported("summarise " + info.type);
}
function valueMentionsSeg(s, x) { return s.t === "e" ? valueMentions(s.v, new Map([[x, x]])) : s.t === "c" ? (s.src.term && t.mentions(s.src.term, x)) || (s.items ?? []).some((i) => valueMentionsSeg(i, x)) : false; }
function mergeItems(items) { // merge same-shape exclusive alternatives (e with equal value)
  return items;
}
function mergeKeyed(items) {
  // merge entries with the same key
  const out = [];
  for (const it of items) {
    const p = out.find((x) => x.k === it.k);
    if (p && t.and(p.g, it.g) === t.F) { p.v = mergeValues([{ g: p.g, v: p.v }, { g: it.g, v: it.v }]); p.g = t.or(p.g, it.g); }
    else if (p) { p.v = mergeValues([{ g: it.g, v: it.v }, { g: t.not(it.g), v: p.v }]); p.g = t.or(p.g, it.g); }
    else out.push({ ...it });
  }
  return out;
}
function foldScalar(alts, hv, oldV, samples, src, lo, hi, idx, dependsHavoc) {
  // unchanged alternatives
  const same = (v) => v === hv || (v instanceof Sym && hv instanceof Sym && v.term === hv.term && v.sort === hv.sort);
  const mentionsIdx = (v) => valueMentions(v, new Map([[idx, idx]]));
  const dep = (v) => v instanceof Sym ? dependsHavoc(v.term) : v instanceof Union ? v.alts.some((a) => dependsHavoc(a.g) || dep(a.v)) : false;
  const ch = alts.filter((a) => !same(a.v));
  if (!ch.length) return oldV;
  const merged = mergeValues(ch.map((a) => ({ g: a.g, v: a.v })));
  const G = t.or(...ch.map((a) => a.g));
  if (!dep(merged) && !dependsHavoc(G)) {
    const { ex, j } = existsIdx(src, lo, hi, idx, G, "last");
    const v = mentionsIdx(merged) ? substValue(merged, new Map([[idx, j]])) : merged;
    return iteValue(ex, v, oldV);
  }
  // counters: hv + c unconditionally
  if (ch.length === alts.length && hv instanceof Sym && hv.sort === "num" && merged instanceof Sym && merged.sort === "num") {
    const d = t.sub(merged.term, hv.term);
    const inc = diffConst(merged.term, hv.term);
    if (inc !== null) return mkNum(t.add(termOf(oldV), t.mul(t.real(inc), t.toReal(t.isub(hi, lo)))));
  }
  S.imprecise.v = S.imprecise.v ?? "loop-carried scalar";
  return freshLike("fold", samples);
}
function diffConst(a, b) { if (a.op === "+" && a.args.length === 2) { const [x, y] = a.args; if (x === b && y.op === "real") return y.data; if (y === b && x.op === "real") return x.data; } return null; }

function* execForOf(n, sc, label) {
  const itv = yield* ev(n.expression, sc);
  const isAwait = !!n.awaitModifier;
  const isBreak = (c) => c.k === "break:" || (label && c.k === "break:" + label);
  const bind = function* (v) {
    const s2 = new Scope(sc);
    if (n.initializer.kind === K.VariableDeclarationList) { yield* bindPattern(n.initializer.declarations[0].name, v, s2, true); }
    else yield* assignTo(n.initializer, v, sc);
    return s2;
  };
  if (isAwait) return yield* forAwait(n, itv, sc, bind, isBreak, label);
  let gen = itv instanceof JObj && itv.cls === "Generator" ? itv : null;
  if (gen) return yield* forGenerator(n, gen, bind, isBreak, label);
  const rope = yield* iterToRope(itv);
  const c = yield* iterateRope(n, rope, function* (v) { const s2 = yield* bind(v); return yield* exec(n.statement, s2); }, label);
  return isBreak(c) ? OK : c;
}
function* forGenerator(n, gen, bind, isBreak, label) {
  for (let i = 0; i < 10000; i++) {
    const r = yield* genResume(gen, "next", undefined);
    if (r.done) return OK;
    const s2 = yield* bind(r.value);
    let c;
    try { c = yield* exec(n.statement, s2); } catch (e) {
      if (e instanceof JSThrow) { try { yield* genResume(gen, "return", undefined); } catch (e2) { if (!(e2 instanceof JSThrow)) throw e2; } }
      else if (e instanceof GenReturn) yield* genResume(gen, "return", undefined);
      throw e;
    }
    if (c.k !== "ok" && !c.k.startsWith("continue:")) { yield* genResume(gen, "return", undefined); return isBreak(c) ? OK : c; }
  }
  throw new Unsupported("generator loop too long");
}
function* forAwait(n, itv, sc, bind, isBreak, label) {
  const v = narrow(itv);
  if (v instanceof JObj && v.streamRope) {
    // symbolic stream (input): elements then completion or error
    const c = yield* iterateRope(n, v.streamRope, function* (x) { const s2 = yield* bind(x); return yield* exec(n.statement, s2); }, label);
    if (c.k === "ok" || c.k.startsWith("continue:")) { if (v.streamEnd) { const e = yield* v.streamEnd(); } return OK; }
    if (v.streamReturn) yield* v.streamReturn();
    return isBreak(c) ? OK : c;
  }
  let it = yield* get(v, "\uE000@asyncIterator");
  if (it === undefined) {
    const rope = yield* iterToRope(v);
    const c = yield* iterateRope(n, rope, function* (x) { const s2 = yield* bind(yield* awaitV(x)); return yield* exec(n.statement, s2); }, label);
    return isBreak(c) ? OK : c;
  }
  const iter = yield* call(it, v, []);
  if (iter instanceof JObj && iter.streamRope) return yield* forAwait(n, iter, sc, bind, isBreak, label);
  const next = yield* get(iter, "next");
  for (let i = 0; i < 10000; i++) {
    const r = yield* awaitV(yield* call(next, iter, []));
    if (decide(truthy(yield* get(r, "done")))) return OK;
    const s2 = yield* bind(yield* get(r, "value"));
    let c;
    try { c = yield* exec(n.statement, s2); } catch (e) {
      if (e instanceof JSThrow || e instanceof GenReturn) {
        try { const ret = yield* get(iter, "return"); if (ret !== undefined) yield* awaitV(yield* call(ret, iter, [])); }
        catch (e2) { if (!(e2 instanceof JSThrow) || e instanceof GenReturn) throw e2; }
      }
      throw e;
    }
    if (c.k !== "ok" && !c.k.startsWith("continue:")) {
      const ret = yield* get(iter, "return");
      if (ret !== undefined) yield* awaitV(yield* call(ret, iter, []));
      return isBreak(c) ? OK : c;
    }
  }
  throw new Unsupported("async iterator too long");
}
function* execForIn(n, sc, label) {
  const o = narrow(yield* ev(n.expression, sc));
  if (o === undefined || o === null) return OK;
  const rope = o.cls === "Array" ? concreteVals(o.rope).map((_, i) => ({ t: "e", g: t.T, v: String(i) })) : entriesRope(o.store).map(keySeg);
  const c = yield* iterateRope(n, rope, function* (v) {
    const s2 = new Scope(sc);
    if (n.initializer.kind === K.VariableDeclarationList) yield* bindPattern(n.initializer.declarations[0].name, v, s2, true);
    else yield* assignTo(n.initializer, v, sc);
    return yield* exec(n.statement, s2);
  }, label);
  return c.k === "break:" ? OK : c;
}
const UNROLL = 2000;
function* execFor(n, sc, label) {
  const s1 = new Scope(sc);
  if (n.initializer) { if (n.initializer.kind === K.VariableDeclarationList) yield* declareVars(n.initializer, s1); else yield* ev(n.initializer, s1); }
  return yield* loopLoop(n, s1, n.condition, n.statement, n.incrementor, label, false);
}
function* execWhile(n, sc, label, isDo) { return yield* loopLoop(n, sc, n.expression, n.statement, null, label, isDo); }
export const loopHandlers = []; // functions (n, ctx) -> generator or null
function* loopLoop(n, s1, cond, body, inc, label, isDo) {
  const isBreak = (c) => c.k === "break:" || (label && c.k === "break:" + label);
  const isCont = (c) => c.k === "ok" || c.k === "continue:" || (label && c.k === "continue:" + label);
  let first = isDo;
  let symbolicSeen = 0;
  const names = n.kind === K.ForStatement ? [...s1.vars.keys()] : []; // only a for statement rebinds its variables per iteration
  let cur = s1;
  for (let i = 0; ; i++) {
    if (i > UNROLL) throw new Unsupported("loop does not terminate concretely");
    if (!first) {
      const c = cond ? truthy(yield* ev(cond, cur)) : t.T;
      let k = c === t.T ? true : c === t.F ? false : known(c);
      if (k === undefined) {
        for (const h of loopHandlers) {
          const r = h(n, { scope: cur, cond, body, inc, label, isBreak, isCont, iter: i, condTerm: c });
          if (r) return yield* r;
        }
        if (++symbolicSeen > (S.unit?.unroll ?? 0)) throw new Unsupported("loop with symbolic condition and no loop contract: " + (n.getText ? n.getText().slice(0, 80) : ""));
        k = decide(c);
      }
      if (!k) return OK;
    }
    first = false;
    if (!cond || i === 0) for (const h of loopHandlers) { const r = h(n, { scope: cur, cond, body, inc, label, isBreak, isCont, iter: i, condTerm: t.T, atHead: true }); if (r) return yield* r; }
    const c = yield* exec(body, cur);
    if (isBreak(c)) return OK;
    if (!isCont(c)) return c;
    if (names.length) { const nx = new Scope(s1.parent); for (const nm of names) nx.declare(nm, cur.vars.get(nm).v); cur = nx; }
    if (inc) yield* ev(inc, cur);
  }
}
// counting loops over a symbolic bound: for (let i = a; i < n; i++)
loopHandlers.push((n, c) => {
  if (n.kind !== K.ForStatement || c.iter !== 0 || c.atHead || !n.initializer || n.initializer.kind !== K.VariableDeclarationList || n.initializer.declarations.length !== 1) return null;
  const d = n.initializer.declarations[0];
  if (d.name.kind !== K.Identifier || !n.condition || n.condition.kind !== K.BinaryExpression) return null;
  const nm = d.name.text, op = n.condition.operatorToken.kind;
  if (n.condition.left.kind !== K.Identifier || n.condition.left.text !== nm || (op !== K.LessThanToken && op !== K.LessThanEqualsToken)) return null;
  const inc = n.incrementor;
  const okInc = inc && ((inc.kind === K.PostfixUnaryExpression || inc.kind === K.PrefixUnaryExpression) && inc.operator === K.PlusPlusToken && inc.operand.text === nm || (inc.kind === K.BinaryExpression && inc.operatorToken.kind === K.PlusEqualsToken && inc.left.text === nm && inc.right.kind === K.NumericLiteral && inc.right.text === "1"));
  if (!okInc) return null;
  return (function* () {
    const start = c.scope.vars.get(nm).v;
    const bound = yield* ev(n.condition.right, c.scope);
    const lo = t.toInt(termOf(start)); let hi = t.toInt(termOf(bound));
    if (op === K.LessThanEqualsToken) hi = t.iadd(hi, t.int(1));
    if (known(t.isInt(termOf(bound))) !== true && t.isInt(termOf(bound)) !== t.T) assume(t.isInt(termOf(bound)));
    const src = { kind: "range", key: "range" + S.fresh.n, n: hi }; set(S.fresh, "n", S.fresh.n + 1);
    assume(t.le(lo, hi));
    const seg = { t: "c", g: t.T, src, lo, hi, idx: t.cst("i$" + src.key, "Int"), items: null };
    const r = yield* iterateRope(n, [seg], function* (v) {
      const s2 = new Scope(c.scope.parent); const cell = s2.declare(nm, v);
      const comp = yield* exec(c.body, s2);
      if (c.isCont(comp)) {
        if (cell.v !== v && !(cell.v instanceof Sym && v instanceof Sym && cell.v.term === v.term)) throw new Unsupported("loop body changes its counter");
        const b2 = yield* ev(n.condition.right, s2);
        if (termOf(b2) !== termOf(bound)) throw new Unsupported("loop bound changes");
      }
      return comp;
    }, c.label);
    return c.isBreak(r) ? OK : r;
  })();
});

// ---------- classes ----------
function* evalClass(n, sc) {
  const cs = new Scope(sc);
  const c = new JObj("Function", protos.Function);
  c.classNode = n; c.fname = n.name ? n.name.text : ""; c.scope = cs;
  const sf = n.getSourceFile(); 
  if (n.name) cs.declare(n.name.text, c);
  const protoObj = newObj();
  c.protoObj = protoObj; c.home = protoObj;
  const ext = n.heritageClauses?.find((h) => h.token === K.ExtendsKeyword);
  if (ext) {
    const p = narrow(yield* ev(ext.types[0].expression, sc));
    if (p !== null) { c.parentClass = p; c.proto = p; protoObj.proto = yield* get(p, "prototype"); }
  }
  c.store = storeSet(c.store, "prototype", protoObj);
  protoObj.store = storeAccHidden(protoObj.store, "constructor", c);
  for (const m of n.members) {
    const stat = hasMod(m, K.StaticKeyword);
    const tgt = stat ? c : protoObj;
    if (m.kind === K.Constructor) { if (m.body) { c.node = m; if (sf && sf.repoPath) c.qname = sf.repoPath + "#" + qualName(m); } }
    else if (m.kind === K.MethodDeclaration) { const k = yield* propNameKey(m.name, cs); const f = mkClosure(m, cs, { home: tgt }); f.fname = typeof k === "string" ? k : ""; tgt.store = hiddenSet(tgt.store, k, f); }
    else if (m.kind === K.GetAccessor || m.kind === K.SetAccessor) { const k = yield* propNameKey(m.name, cs); const f = mkClosure(m, cs, { home: tgt }); tgt.store = storeAcc(tgt.store, k, m.kind === K.GetAccessor ? { get: f } : { set: f }); }
  }
  for (const m of n.members) {
    if (m.kind === K.PropertyDeclaration && hasMod(m, K.StaticKeyword)) {
      const s2 = new Scope(cs); s2.fn = { thisV: c, func: c, home: c };
      const k = yield* propNameKey(m.name, s2);
      c.store = storeSet(c.store, k, m.initializer ? yield* evalNamed(m.initializer, s2, k) : undefined);
    } else if (m.kind === K.ClassStaticBlockDeclaration) {
      const s2 = new Scope(cs); s2.fn = { thisV: c, func: c, home: c };
      hoist(m.body, s2, true); yield* execStmts(m.body.statements, s2);
    }
  }
  return c;
}
const storeAccHidden = (s, k, v) => hiddenSet(s, k, v);
export const hiddenSet = (s, k, v) => ({ base: s.base, ents: [...s.ents.filter((e) => e.k !== k), { k, g: t.T, v, hidden: true }] });

// ---------- expressions ----------
function* evalNamed(n, sc, name) {
  const v = yield* ev(n, sc);
  if (v instanceof JObj && v.cls === "Function" && !v.fname && typeof name === "string" && (n.kind === K.ArrowFunction || n.kind === K.FunctionExpression || n.kind === K.ClassExpression)) v.fname = name;
  return v;
}
const importsMeta = new Map();
export function* ev(n, sc) {
  switch (n.kind) {
    case K.NumericLiteral: return Number(n.text);
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return n.text;
    case K.BigIntLiteral: return BigInt(n.text.replace(/n$/, ""));
    case K.TrueKeyword: return true;
    case K.FalseKeyword: return false;
    case K.NullKeyword: return null;
    case K.Identifier: return yield* evIdent(n, sc);
    case K.ParenthesizedExpression: case K.AsExpression: case K.NonNullExpression: case K.SatisfiesExpression: return yield* ev(n.expression, sc);
    case K.ThisKeyword: { const f = sc.fnScope(); if (!f) return undefined; if (f.fn.thisV === TDZ) throwErr("ReferenceError", "this before super"); return f.fn.thisV; }
    case K.TemplateExpression: {
      let r = n.head.text;
      for (const s of n.templateSpans) { r = strConcat(r, yield* toStr(yield* ev(s.expression, sc))); r = strConcat(r, s.literal.text); }
      return r;
    }
    case K.ObjectLiteralExpression: return yield* evObject(n, sc);
    case K.ArrayLiteralExpression: {
      const segs = [];
      for (const e of n.elements) {
        if (e.kind === K.SpreadElement) segs.push(...(yield* iterToRopeU(yield* ev(e.expression, sc))));
        else if (e.kind === K.OmittedExpression) segs.push({ t: "e", g: t.T, v: undefined });
        else segs.push({ t: "e", g: t.T, v: yield* ev(e, sc) });
      }
      return newArr(segs);
    }
    case K.FunctionExpression: {
      if (n.name) { const s2 = new Scope(sc); const f = mkClosure(n, s2); s2.declare(n.name.text, f); return f; }
      return mkClosure(n, sc);
    }
    case K.ArrowFunction: return mkClosure(n, sc);
    case K.ClassExpression: return yield* evalClass(n, sc);
    case K.PropertyAccessExpression: case K.ElementAccessExpression: case K.CallExpression: return yield* evChain(n, sc);
    case K.NewExpression: {
      const c = yield* ev(n.expression, sc);
      const args = n.arguments ? yield* evArgs(n.arguments, sc) : [];
      return yield* construct(c, args);
    }
    case K.BinaryExpression: return yield* evBinary(n, sc);
    case K.PrefixUnaryExpression: return yield* evPrefix(n, sc);
    case K.PostfixUnaryExpression: {
      const old = yield* toNum(yield* ev(n.operand, sc));
      yield* assignTo(n.operand, arith(n.operator === K.PlusPlusToken ? "+" : "-", old, 1), sc);
      return old;
    }
    case K.ConditionalExpression: {
      const c = truthy(yield* ev(n.condition, sc));
      const k = c === t.T ? true : c === t.F ? false : known(c);
      if (k === true) return yield* ev(n.whenTrue, sc);
      if (k === false) return yield* ev(n.whenFalse, sc);
      return (yield* region(n, function* () { return { k: "ok", v: decide(c) ? yield* ev(n.whenTrue, sc) : yield* ev(n.whenFalse, sc) }; })).v;
    }
    case K.TypeOfExpression: {
      if (n.expression.kind === K.Identifier && !sc.lookup(n.expression.text) && n.expression.text !== "undefined") return "undefined";
      return typeOfV(yield* ev(n.expression, sc));
    }
    case K.VoidExpression: yield* ev(n.expression, sc); return undefined;
    case K.DeleteExpression: {
      const e = n.expression;
      const o = narrow(yield* ev(e.expression, sc));
      const k = e.kind === K.PropertyAccessExpression ? e.name.text : propKey(yield* ev(e.argumentExpression, sc));
      if (o instanceof JObj && o.proxy) throw new Unsupported("delete on proxy");
      if (o instanceof JObj) set(o, "store", storeDel(o.store, k));
      return true;
    }
    case K.AwaitExpression: return yield* evAwait(n, sc);
    case K.YieldExpression: return yield* evYield(n, sc);
    case K.RegularExpressionLiteral: { const m = /^\/(.*)\/([a-z]*)$/s.exec(n.text); return mkRegExp(m[1], m[2]); }
    case K.SpreadElement: throw new Unsupported("spread here");
    case K.TaggedTemplateExpression: throw new Unsupported("tagged template");
    case K.MetaProperty: if (n.keywordToken === K.NewKeyword) return sc.fnScope()?.fn.newTarget; { const o = newObj(); o.store = storeSet(o.store, "url", "file:///x"); return o; }
    case K.SuperKeyword: throw new Unsupported("super");
    case K.CommaListExpression: { let v; for (const e of n.elements) v = yield* ev(e, sc); return v; }
  }
  throw new Unsupported("expression " + K[n.kind]);
}
export function mkRegExp(source, flags) { const r = new JObj("RegExp", protos.RegExp); r.re = { source, flags }; r.store = storeSet(r.store, "lastIndex", 0); return r; }
function* evIdent(n, sc) {
  const c = sc.lookup(n.text);
  if (!c) {
    if (n.text === "undefined") return undefined;
    if (n.text === "arguments") { const f = sc.fnScope(); return arrOf(f.fn.args ?? []); }
    throwErr("ReferenceError", n.text + " is not defined");
  }
  if (c.lazy) return c.lazy();
  if (c.v === TDZ) throwErr("ReferenceError", `Cannot access '${n.text}' before initialization`);
  if (c.v instanceof Union && c.v.alts.some((a) => a.v === TDZ)) {
    // initialised only on some of the merged paths
    if (decide(t.or(...c.v.alts.filter((a) => a.v === TDZ).map((a) => a.g)))) throwErr("ReferenceError", `Cannot access '${n.text}' before initialization`);
    const as = c.v.alts.filter((a) => a.v !== TDZ);
    return as.length === 1 ? as[0].v : new Union(as);
  }
  return c.v;
}
export function* iterToRopeU(v) {
  if (v instanceof Union) {
    const out = [];
    for (const a of v.alts) {
      if (!(a.v instanceof JObj && (a.v.cls === "Array" || a.v.cls === "Set"))) { return yield* iterToRope(v); }
      for (const s of yield* iterToRope(a.v)) out.push(guardSeg(s, a.g));
    }
    return out;
  }
  return yield* iterToRope(v);
}
function* evArgs(list, sc) {
  const out = [];
  for (const a of list) {
    if (a.kind === K.SpreadElement) {
      const r = normRope(yield* iterToRope(yield* ev(a.expression, sc)));
      if (isConcreteRope(r)) out.push(...concreteVals(r));
      else { out.spread = out.spread ?? []; out.push(new SpreadArg(r)); }
    } else out.push(yield* ev(a, sc));
  }
  return out;
}
export class SpreadArg { constructor(rope) { this.rope = rope; } }
function* evObject(n, sc) {
  const o = newObj();
  for (const p of n.properties) {
    switch (p.kind) {
      case K.PropertyAssignment: { const k = yield* propNameKey(p.name, sc); const v = yield* evalNamed(p.initializer, sc, k); o.store = storeSet(o.store, k, v); break; }
      case K.ShorthandPropertyAssignment: o.store = storeSet(o.store, p.name.text, yield* evIdent(p.name, sc)); break;
      case K.SpreadAssignment: o.store = yield* spreadInto(o.store, yield* ev(p.expression, sc)); break;
      case K.MethodDeclaration: { const k = yield* propNameKey(p.name, sc); const f = mkClosure(p, sc, { home: o }); if (!f.fname && typeof k === "string") f.fname = k; o.store = storeSet(o.store, k, f); break; }
      case K.GetAccessor: case K.SetAccessor: { const k = yield* propNameKey(p.name, sc); const f = mkClosure(p, sc, { home: o }); o.store = storeAcc(o.store, k, p.kind === K.GetAccessor ? { get: f } : { set: f }); break; }
      default: throw new Unsupported("object member " + K[p.kind]);
    }
  }
  return o;
}
const SHORT = { short: true };
function* evChain(n, sc) {
  const v = yield* evChainIn(n, sc);
  return v === SHORT ? undefined : v;
}
// returns SHORT when an optional link short-circuited
function* evChainIn(n, sc, inl) {
  if (n.kind === K.PropertyAccessExpression || n.kind === K.ElementAccessExpression) {
    if (n.expression.kind === K.SuperKeyword) {
      const f = sc.fnScope().fn; const k = n.kind === K.PropertyAccessExpression ? n.name.text : propKey(yield* ev(n.argumentExpression, sc));
      return yield* getPropObj(f.home.proto, k, f.thisV);
    }
    const o = yield* evLink(n.expression, sc);
    if (o === SHORT) return SHORT;
    return yield* optLink(n, o, (ob) => access(n, ob, sc));
  }
  if (n.kind === K.CallExpression) {
    const ce = n.expression;
    if (ce.kind === K.SuperKeyword) { const f = sc.fnScope().fn; return yield* superCall(f, yield* evArgs(n.arguments, sc)); }
    if (ce.kind === K.ImportKeyword) { return yield* hooksI.dynamicImport(n.arguments[0], sc); }
    if (ce.kind === K.PropertyAccessExpression || ce.kind === K.ElementAccessExpression) {
      if (ce.expression.kind === K.SuperKeyword) {
        const f = sc.fnScope().fn; const k = ce.kind === K.PropertyAccessExpression ? ce.name.text : propKey(yield* ev(ce.argumentExpression, sc));
        const m = yield* getPropObj(f.home.proto, k, f.thisV);
        return yield* call(m, f.thisV, yield* evArgs(n.arguments, sc));
      }
      const o = yield* evLink(ce.expression, sc);
      if (o === SHORT) return SHORT;
      return yield* optLink(ce, o, function* (ob) {
        return yield* callMethodOn(n, ce, ob, sc, inl);
      });
    }
    const f = yield* evLink(ce, sc);
    if (f === SHORT) return SHORT;
    return yield* optLink(n, f, function* (fv) { return yield* callI(inl, fv, undefined, yield* evArgs(n.arguments, sc)); });
  }
  return yield* ev(n, sc);
}
function* callI(inl, f, thisV, args) {
  if (inl && f instanceof JObj && f.isAsync && !f.isGen && !f.native && !(f.stub && !f.stubOff)) S.inlineAwait = f.node;
  return yield* call(f, thisV, args);
}
function* callMethodOn(n, ce, ob, sc, inl) {
  // union / any receivers: pick one alternative (merged by an expression region)
  if ((ob instanceof Union) || (ob instanceof Sym && ob.sort === "any")) {
    return (yield* region(ce, function* () {
      const o1 = narrow(ob);
      return { k: "ok", v: yield* callMethodOn(n, ce, o1, sc, inl) };
    })).v;
  }
  const m = yield* access(ce, ob, sc);
  return yield* optLink(n, m, function* (fv) {
    const args = yield* evArgs(n.arguments, sc);
    if (fv instanceof Union && fv.alts.length > 1) return (yield* region(n, function* () { return { k: "ok", v: yield* callI(inl, split(fv), ob, args) }; })).v;
    if (!(fv instanceof JObj) || fv.cls !== "Function") { const f2 = narrow(fv); if (!isFn(f2)) throwErr("TypeError", `${ce.name ? ce.name.text : "value"} is not a function`); return yield* callI(inl, f2, ob, args); }
    return yield* callI(inl, fv, ob, args);
  });
}
function* evLink(e, sc) {
  if (e.kind === K.PropertyAccessExpression || e.kind === K.ElementAccessExpression || e.kind === K.CallExpression) return yield* evChainIn(e, sc);
  return yield* ev(e, sc);
}
function* optLink(n, o, f) {
  if (!n.questionDotToken) return yield* f(o);
  const nn = isNullish(o);
  const k = nn === t.T ? true : nn === t.F ? false : known(nn);
  if (k === true) return SHORT;
  if (k === false) return yield* f(o instanceof Union ? without(o, isNullish) : o);
  const r = yield* region(n, function* () {
    if (decide(nn)) return { k: "ok", v: undefined };
    const v = yield* f(o instanceof Union ? without(o, isNullish) : o);
    return { k: "ok", v: v === SHORT ? undefined : v };
  });
  // continue the chain lazily: treat as value; a nullish result on the short path must short-circuit the rest
  return markShort(r.v, nn);
}
function markShort(v, nn) { if (v === undefined) return SHORT; return v instanceof Union ? Object.assign(new Union(v.alts), { shortOn: nn }) : v; }
function* access(n, o, sc) {
  if (o instanceof Union && o.shortOn && !n.questionDotToken) {
    // a?.b.c : on the short-circuited alternative the whole chain is undefined
    const nn = o.shortOn;
    const inner = new Union(o.alts);
    const r = yield* region(n, function* () { return { k: "ok", v: decide(nn) ? undefined : yield* access1(n, without(inner, isUndef), sc) }; });
    const v = r.v;
    return v instanceof Union ? Object.assign(new Union(v.alts), { shortOn: nn }) : v;
  }
  return yield* access1(n, o, sc);
}
function* access1(n, o, sc) {
  if (n.kind === K.PropertyAccessExpression) {
    if (n.name.kind === K.PrivateIdentifier) return yield* get(o, "\uE000@priv" + n.name.text);
    return yield* get(o, n.name.text);
  }
  return yield* getV(o, yield* ev(n.argumentExpression, sc));
}
export function* assignTo(target, v, sc) {
  switch (target.kind) {
    case K.Identifier: { const c = sc.lookup(target.text); if (!c) throwErr("ReferenceError", target.text + " is not defined"); set(c, "v", v); return; }
    case K.ParenthesizedExpression: case K.AsExpression: case K.NonNullExpression: return yield* assignTo(target.expression, v, sc);
    case K.PropertyAccessExpression: {
      if (target.expression.kind === K.SuperKeyword) throw new Unsupported("super assign");
      const o = yield* ev(target.expression, sc);
      return yield* put(o, target.name.kind === K.PrivateIdentifier ? "\uE000@priv" + target.name.text : target.name.text, v);
    }
    case K.ElementAccessExpression: { const o = yield* ev(target.expression, sc); const k = yield* ev(target.argumentExpression, sc); return yield* putV(o, k, v); }
    case K.ArrayLiteralExpression: {
      const a = narrow(v); const r = yield* iterToRope(a); let i = 0;
      for (const el of target.elements) {
        if (el.kind === K.OmittedExpression) { i++; continue; }
        if (el.kind === K.SpreadElement) { yield* assignTo(el.expression, newArr(r.slice(i)), sc); break; }
        let x = ropeAt(r, t.int(i++));
        if (el.kind === K.BinaryExpression) { x = yield* defaulted(x, el.right, sc); yield* assignTo(el.left, x, sc); } else yield* assignTo(el, x, sc);
      }
      return;
    }
    case K.ObjectLiteralExpression: {
      const used = [];
      for (const p of target.properties) {
        if (p.kind === K.SpreadAssignment) { yield* assignTo(p.expression, yield* objectRest(v, used), sc); continue; }
        const k = yield* propNameKey(p.name, sc); used.push(k);
        let x = yield* get(v, k);
        if (p.kind === K.ShorthandPropertyAssignment) { if (p.objectAssignmentInitializer) x = yield* defaulted(x, p.objectAssignmentInitializer, sc); yield* assignTo(p.name, x, sc); }
        else if (p.initializer.kind === K.BinaryExpression) { x = yield* defaulted(x, p.initializer.right, sc); yield* assignTo(p.initializer.left, x, sc); }
        else yield* assignTo(p.initializer, x, sc);
      }
      return;
    }
  }
  throw new Unsupported("assignment target " + K[target.kind]);
}
export function strConcat(a, b) {
  if (typeof a === "string" && typeof b === "string") return a + b;
  if (a instanceof Union) return mapU(a, (x) => strConcat(x, b));
  if (b instanceof Union) return mapU(b, (x) => strConcat(a, x));
  return mkStr(t.concat(termOf(a), termOf(b)));
}
export function* toStr(v) {
  v = weakNarrow(v);
  switch (sortOf(v)) {
    case "str": return v;
    case "undef": return "undefined";
    case "null": return "null";
    case "bool": return v instanceof Sym ? mkStr(t.ite(v.term, t.str("true"), t.str("false"))) : String(v);
    case "num": return v instanceof Sym ? mkStr(numToStr(v.term)) : String(v);
    case "bigint": return String(v);
    case "symbol": throwErr("TypeError", "Cannot convert a Symbol value to a string");
    case "union": { const out = []; for (const a of v.alts) { if (a.v instanceof JObj && !isPlainToStr(a.v)) return yield* toStr(split(v)); out.push({ g: a.g, v: yield* toStr(a.v) }); } return mergeValues(out); }
    case "any": return mkStr(anyToStr(v.term));
    case "obj": {
      if (v.cls === "Array" && v.rope) return yield* hooksI.arrayJoin(v, ",");
      const m = yield* get(v, "toString");
      if (m !== undefined) return yield* toStr(yield* call(m, v, []));
      return "[object Object]";
    }
  }
  throw new Unsupported("toStr " + sortOf(v));
}
const isPlainToStr = (o) => o.cls === "Object" && o.proto === protos.Object;
export function anyToStr(x) {
  return t.ite(t.is("VS", x), t.acc("vs", x), t.ite(t.is("VUndef", x), t.str("undefined"), t.ite(t.is("VNull", x), t.str("null"), t.ite(t.is("VB", x), t.ite(t.acc("vb", x), t.str("true"), t.str("false")), t.ite(t.is("VN", x), numToStr(t.acc("vn", x)), t.app("toStr0", [x], "String"))))));
}
export function* toNum(v) {
  switch (sortOf(v)) {
    case "num": return v;
    case "undef": return NaN;
    case "null": return 0;
    case "bool": return v instanceof Sym ? mkNum(t.ite(v.term, t.real(1), t.real(0))) : Number(v);
    case "str": {
      if (!(v instanceof Sym)) return Number(v);
      return strToNum(v.term);
    }
    case "bigint": return v;
    case "union": { const out = []; for (const a of v.alts) out.push({ g: a.g, v: yield* toNum(a.v) }); return mergeValues(out); }
    case "any": return yield* toNum(narrow(v));
    case "obj": if (v.date) return v.date.t; { const m = yield* get(v, "valueOf"); if (m !== undefined) { const r = yield* call(m, v, []); if (!(r instanceof JObj)) return yield* toNum(r); } return yield* toNum(yield* toStr(v)); }
  }
  throw new Unsupported("toNum " + sortOf(v));
}
export function strToNum(s) {
  const isNum = t.app("isNumeric", [s], "Bool");
  const n = t.app("str2num", [s], "Real");
  // str2num(num2str(x)) = x
  if (s.op === "app:num2str") return mkNum(s.args[0]);
  hooksI.numericFacts?.(s, isNum, n);
  return iteValue(isNum, mkNum(n), NaN);
}
export function arith(op, a, b) {
  if (a instanceof Union) return mapU(a, (x) => arith(op, x, b));
  if (b instanceof Union) return mapU(b, (x) => arith(op, a, x));
  if (!(a instanceof Sym) && !(b instanceof Sym)) {
    switch (op) { case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b;
      case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b; }
  }
  if ((typeof a === "number" && !Number.isFinite(a)) || (typeof b === "number" && !Number.isFinite(b))) { if (a !== a || b !== b) return NaN; if (op === "+" || op === "-") return typeof a === "number" && !Number.isFinite(a) ? a : op === "-" ? -b : b; throw new Unsupported("infinite arithmetic"); }
  const x = termOf(a), y = termOf(b);
  switch (op) {
    case "+": return mkNum(t.add(x, y));
    case "-": return mkNum(t.sub(x, y));
    case "*": return mkNum(t.mul(x, y));
    case "/": if (y.op === "real" && y.data !== 0) return mkNum(t.div(x, y)); return mkNum(t.app("jsdiv", [t.toReal(x), t.toReal(y)], "Real"));
    default: return mkNum(t.app("num_" + ({ "%": "mod", "**": "pow", "&": "band", "|": "bor", "^": "bxor", "<<": "shl", ">>": "shr", ">>>": "ushr" })[op], [t.toReal(x), t.toReal(y)], "Real"));
  }
}
export function* add(a, b) {
  a = a instanceof Sym && a.sort === "any" ? narrow(a) : a;
  b = b instanceof Sym && b.sort === "any" ? narrow(b) : b;
  if (a instanceof Union) { if (a.alts.some((x) => x.v instanceof JObj || (x.v instanceof Sym && x.v.sort === "any"))) return yield* add(narrow(a), b); const out = []; for (const x of a.alts) out.push({ g: x.g, v: yield* add(x.v, b) }); return mergeValues(out); }
  if (b instanceof Union) { if (b.alts.some((x) => x.v instanceof JObj || (x.v instanceof Sym && x.v.sort === "any"))) return yield* add(a, narrow(b)); const out = []; for (const x of b.alts) out.push({ g: x.g, v: yield* add(a, x.v) }); return mergeValues(out); }
  if (a instanceof JObj) a = a.date ? yield* toStr(a) : yield* toStr(a);
  if (b instanceof JObj) b = yield* toStr(b);
  if (sortOf(a) === "str" || sortOf(b) === "str") return strConcat(yield* toStr(a), yield* toStr(b));
  if (typeof a === "bigint" && typeof b === "bigint") return a + b;
  return arith("+", yield* toNum(a), yield* toNum(b));
}
export function* compare(op, a, b) { // relational
  a = narrowPrim(a); b = narrowPrim(b);
  if (a instanceof Union) { const out = []; for (const x of a.alts) out.push({ g: x.g, v: yield* compare(op, x.v, b) }); return mergeValues(out); }
  if (b instanceof Union) { const out = []; for (const x of b.alts) out.push({ g: x.g, v: yield* compare(op, a, x.v) }); return mergeValues(out); }
  if (sortOf(a) === "str" && sortOf(b) === "str") {
    const x = termOf(a), y = termOf(b);
    switch (op) { case "<": return mkBool(t.strLt(x, y)); case ">": return mkBool(t.strLt(y, x)); case "<=": return mkBool(t.not(t.strLt(y, x))); case ">=": return mkBool(t.not(t.strLt(x, y))); }
  }
  let x = yield* toNum(a), y = yield* toNum(b);
  if (x instanceof Union) return yield* compare(op, x, y);
  if (y instanceof Union) return yield* compare(op, x, y);
  if (!(x instanceof Sym) && !(y instanceof Sym)) { switch (op) { case "<": return x < y; case ">": return x > y; case "<=": return x <= y; case ">=": return x >= y; } }
  for (const [u, left] of [[x, true], [y, false]]) if (typeof u === "number" && !Number.isFinite(u)) {
    if (u !== u) return false;
    const less = op === "<" || op === "<=";
    return left ? (u < 0) === less : (u > 0) === less;
  }
  const p = termOf(x), q = termOf(y);
  switch (op) { case "<": return mkBool(t.lt(p, q)); case ">": return mkBool(t.lt(q, p)); case "<=": return mkBool(t.le(p, q)); case ">=": return mkBool(t.le(q, p)); }
}
const narrowPrim = (v) => (v instanceof Sym && v.sort === "any" ? narrow(v) : v instanceof Union && v.alts.some((a) => a.v instanceof Sym && a.v.sort === "any") ? narrow(v) : v);
function looseEq(a, b) {
  if (a === null || a === undefined) return isNullish(b);
  if (b === null || b === undefined) return isNullish(a);
  return strictEq(a, b);
}
const BIN = { [K.MinusToken]: "-", [K.AsteriskToken]: "*", [K.SlashToken]: "/", [K.PercentToken]: "%", [K.AsteriskAsteriskToken]: "**", [K.AmpersandToken]: "&", [K.BarToken]: "|", [K.CaretToken]: "^", [K.LessThanLessThanToken]: "<<", [K.GreaterThanGreaterThanToken]: ">>", [K.GreaterThanGreaterThanGreaterThanToken]: ">>>" };
const ASSIGN = { [K.PlusEqualsToken]: "+", [K.MinusEqualsToken]: "-", [K.AsteriskEqualsToken]: "*", [K.SlashEqualsToken]: "/", [K.PercentEqualsToken]: "%", [K.BarEqualsToken]: "|", [K.AmpersandEqualsToken]: "&", [K.CaretEqualsToken]: "^" };
function* evBinary(n, sc) {
  const op = n.operatorToken.kind;
  switch (op) {
    case K.EqualsToken: {
      const v = yield* evalNamed(n.right, sc, n.left.kind === K.Identifier ? n.left.text : "");
      yield* assignTo(n.left, v, sc); return v;
    }
    case K.AmpersandAmpersandToken: case K.BarBarToken: case K.QuestionQuestionToken: return yield* evLogical(n, sc, op, yield* ev(n.left, sc), () => ev(n.right, sc));
    case K.AmpersandAmpersandEqualsToken: case K.BarBarEqualsToken: case K.QuestionQuestionEqualsToken: {
      const o2 = op === K.AmpersandAmpersandEqualsToken ? K.AmpersandAmpersandToken : op === K.BarBarEqualsToken ? K.BarBarToken : K.QuestionQuestionToken;
      return yield* evLogical(n, sc, o2, yield* ev(n.left, sc), function* () { const v = yield* evalNamed(n.right, sc, ""); yield* assignTo(n.left, v, sc); return v; });
    }
    case K.CommaToken: yield* ev(n.left, sc); return yield* ev(n.right, sc);
  }
  if (ASSIGN[op]) {
    const a = yield* ev(n.left, sc), b = yield* ev(n.right, sc);
    const v = ASSIGN[op] === "+" ? yield* add(a, b) : arith(ASSIGN[op], yield* toNum(a), yield* toNum(b));
    yield* assignTo(n.left, v, sc); return v;
  }
  const a = yield* ev(n.left, sc);
  const b = yield* ev(n.right, sc);
  switch (op) {
    case K.EqualsEqualsEqualsToken: return mkBool(strictEq(a, b));
    case K.ExclamationEqualsEqualsToken: return mkBool(t.not(strictEq(a, b)));
    case K.EqualsEqualsToken: return mkBool(looseEq(a, b));
    case K.ExclamationEqualsToken: return mkBool(t.not(looseEq(a, b)));
    case K.PlusToken: return yield* add(a, b);
    case K.LessThanToken: return yield* compare("<", a, b);
    case K.GreaterThanToken: return yield* compare(">", a, b);
    case K.LessThanEqualsToken: return yield* compare("<=", a, b);
    case K.GreaterThanEqualsToken: return yield* compare(">=", a, b);
    case K.InKeyword: {
      const o = narrow(b);
      if (!(o instanceof JObj)) throwErr("TypeError", "Cannot use 'in' operator");
      return mkBool(hasPropTerm(o, propKey(a)));
    }
    case K.InstanceOfKeyword: return yield* instanceOf(a, b);
  }
  if (BIN[op]) {
    if (typeof a === "bigint" && typeof b === "bigint") return BIN[op] === "-" ? a - b : BIN[op] === "*" ? a * b : a / b;
    return arith(BIN[op], yield* toNum(a), yield* toNum(b));
  }
  throw new Unsupported("operator " + K[op]);
}
export function* instanceOf(a, b) {
  const c = narrow(b);
  const proto = yield* get(c, "prototype");
  const f = (v) => {
    if (v instanceof JObj) { let p = v.proxy ? v.proxy.target.proto : v.proto; while (p) { if (p === proto) return t.T; p = p.proto; } return t.F; }
    if (v instanceof Sym && v.sort === "any") {
      if (c.fname === "Array") return t.is("VArr", v.term);
      if (c.fname === "Object") return t.or(t.is("VArr", v.term), t.is("VObj", v.term), t.is("VFun", v.term));
      if (c.fname === "Function") return t.is("VFun", v.term);
      return t.F; // unknown inputs are plain data
    }
    return t.F;
  };
  return mkBool(mapUTerm(a, f));
}
function* evLogical(n, sc, op, l, right) {
  const c = op === K.QuestionQuestionToken ? t.not(isNullish(l)) : truthy(l);
  // keepLeft condition
  const keep = op === K.AmpersandAmpersandToken ? t.not(c) : c;
  const k = keep === t.T ? true : keep === t.F ? false : known(keep);
  if (k === true) return l;
  if (k === false) return yield* right();
  const r = yield* region(n, function* () {
    if (decide(keep)) return { k: "ok", v: op === K.QuestionQuestionToken ? without(l, isNullish) : refineTruth(l, op !== K.AmpersandAmpersandToken) };
    return { k: "ok", v: yield* right() };
  });
  return r.v;
}
// drop union alternatives inconsistent with truthiness
function refineTruth(v, want) {
  if (!(v instanceof Union)) { if (v instanceof Sym && v.sort === "bool") return want; return v; }
  const as = v.alts.filter((a) => { const c = truthy(a.v); return want ? c !== t.F : c !== t.T; });
  if (!as.length) return v;
  return as.length === 1 ? (as[0].v instanceof Sym && as[0].v.sort === "bool" ? want : as[0].v) : new Union(as);
}
function* evPrefix(n, sc) {
  switch (n.operator) {
    case K.ExclamationToken: return mkBool(t.not(truthy(yield* ev(n.operand, sc))));
    case K.MinusToken: { const v = yield* toNum(yield* ev(n.operand, sc)); return typeof v === "bigint" ? -v : v instanceof Sym || v instanceof Union ? arith("-", 0, v) : -v; }
    case K.PlusToken: return yield* toNum(yield* ev(n.operand, sc));
    case K.PlusPlusToken: case K.MinusMinusToken: { const v = arith(n.operator === K.PlusPlusToken ? "+" : "-", yield* toNum(yield* ev(n.operand, sc)), 1); yield* assignTo(n.operand, v, sc); return v; }
    case K.TildeToken: return ~(yield* toNum(yield* ev(n.operand, sc)));
  }
  throw new Unsupported("prefix operator");
}
// ---------- async ----------
// Promise JObj: {cls:'Promise', st:{state, value, reactions}}
export const AWAIT = Symbol("await");
export const YIELD = Symbol("yield");
export function newPromise() { const p = new JObj("Promise", protos.Promise); p.state = "pending"; p.value = undefined; p.reactions = []; return p; }
S.microQ = { q: [] };
S.task = { depth: 0 };
export function settle(p, state, value) {
  if (p.state !== "pending") return;
  set(p, "state", state); set(p, "value", value);
  if (state === "rejected" && S.rejections) set(S.rejections, "v", [...S.rejections.v, p]);
  const rs = p.reactions; set(p, "reactions", []);
  for (const r of rs) enqueue(r);
}
export function enqueue(job) { set(S.microQ, "q", [...S.microQ.q, job]); }
export function enqueueCtx(job) { const m = S.als.m; enqueue(function* () { yield* inAls(m, job()); }); }
export function* resolvePromise(p, v) {
  if (p.state !== "pending") return;
  v = v instanceof Union && v.alts.some((a) => a.v instanceof JObj && (a.v.cls === "Promise")) ? split(v) : v;
  if (v instanceof JObj) {
    if (v === p) return settle(p, "rejected", mkError("TypeError", "chaining cycle"));
    if (plainPromise(v)) { then(v, function* (x) { settle(p, "fulfilled", x); }, function* (e) { settle(p, "rejected", e); }); return; }
    if ((v.cls === "Object" || v.cls === "Promise") && !v.symTerm) {
      let th;
      try { th = yield* get(v, "then"); } catch (e) { if (e instanceof JSThrow) return settle(p, "rejected", e.value); throw e; }
      if (isFn(th)) {
        enqueue(function* () {
          try { yield* call(th, v, [native("resolve", function* (_, [x]) { yield* resolvePromise(p, x); }), native("reject", function* (_, [x]) { settle(p, "rejected", x); })]); }
          catch (e) { if (e instanceof JSThrow) settle(p, "rejected", e.value); else throw e; }
        });
        return;
      }
    }
  }
  settle(p, "fulfilled", v);
}
S.als = { m: new Map() }; // async-local storage contents of the running task
function* inAls(m, gen) {
  const saved = S.als.m;
  if (saved === m) return yield* gen;
  set(S.als, "m", m);
  try { return yield* gen; } finally { set(S.als, "m", saved); }
}
export function then(p, onF, onR) { // host generator callbacks
  set(p, "handled", true);
  const m = S.als.m;
  if (p.state === "pending") set(p, "reactions", [...p.reactions, function* () { yield* inAls(m, p.state === "fulfilled" ? onF(p.value) : onR(p.value)); }]);
  else { const st = p.state, v = p.value; enqueue(function* () { yield* inAls(m, st === "fulfilled" ? onF(v) : onR(v)); }); }
}
// a promise whose then is the built-in one (subclasses may override it)
const plainPromise = (v) => v.cls === "Promise" && v.proto === protos.Promise;
export function* toPromise(v) {
  if (v instanceof JObj && plainPromise(v)) return v;
  const p = newPromise();
  yield* resolvePromise(p, v);
  return p;
}
// run pending microtasks until none remain
export function* drainMicrotasks() {
  let n = 0;
  while (S.microQ.q.length) {
    if (++n > 200000) throw new Unsupported("microtask queue does not drain");
    guardRegions();
    const [j, ...rest] = S.microQ.q; set(S.microQ, "q", rest);
    yield* j();
  }
}
// resuming tasks started outside an active merge region would lose their state on rollback
function guardRegions() { if (S.regions.length > 1) { const sites = S.regions.slice(1); throw new NeedFork(sites); } }
function* runAsync(inner) {
  // called from await-position of the same logical task: run inline
  if (S.inlineAwait) {
    const site = S.inlineAwait;
    S.inlineAwait = null;
    const p = newPromise();
    try { const v = (yield* region(site, function* () { return { k: "ok", v: yield* inner() }; })).v; yield* resolvePromise(p, v); }
    catch (e) { if (e instanceof JSThrow) settle(p, "rejected", e.value); else throw e; }
    return p;
  }
  const p = newPromise();
  const gen = (function* () {
    try { const v = yield* inner(); yield* resolvePromise(p, v); }
    catch (e) { if (e instanceof JSThrow) settle(p, "rejected", e.value); else throw e; }
  })();
  yield* stepTask(gen, undefined, false);
  return p;
}
function* stepTask(gen, val, isThrow) {
  S.task.depth++;
  const saved = S.task.depth;
  try {
    let r = isThrow ? gen.throw(new JSThrow(val)) : gen.next(val);
    while (!r.done) {
      const req = r.value;
      if (req && req[AWAIT]) {
        guardRegions();
        const p = req.p;
        then(p, function* (x) { yield* stepTask(gen, x, false); }, function* (e) { yield* stepTask(gen, e, true); });
        return;
      }
      // other requests pass through
      const x = yield req;
      r = gen.next(x);
    }
  } finally { S.task.depth = saved - 1; }
}
export function* awaitV(v) {
  v = v instanceof Union && v.alts.some((a) => a.v instanceof JObj) ? split(v) : v;
  if (v instanceof Sym && v.sort === "any") v = narrow(v);
  if (!(v instanceof JObj)) { if (S.task.depth === 0 && S.microQ.q.length === 0) return v; }
  if (v instanceof JObj && v.cls !== "Promise") {
    if (v.symTerm || v.cls !== "Object" || (yield* get(v, "then")) === undefined) { if (S.task.depth === 0 && S.microQ.q.length === 0) return v; }
  }
  const p = yield* toPromise(v);
  if (!p.handled) set(p, "handled", true);
  if (S.task.depth === 0) {
    // main task: nothing else runs synchronously after us
    if (p.state === "pending" || S.microQ.q.length) yield* drainUntil(p);
    if (p.state === "fulfilled") return p.value;
    throw new JSThrow(p.value);
  }
  return yield { [AWAIT]: true, p };
}
function* drainUntil(p) {
  let n = 0;
  for (;;) {
    while (S.microQ.q.length) {
      if (++n > 200000) throw new Unsupported("microtask queue does not drain");
      guardRegions();
      const [j, ...rest] = S.microQ.q; set(S.microQ, "q", rest);
      yield* j();
    }
    if (p.state !== "pending") return;
    if (!(yield* hooksI.idle())) throw new Deadlock();
  }
}
export class Deadlock extends Error { constructor() { super("await on a promise that never settles"); } }
function* evAwait(n, sc) {
  const e = n.expression;
  // await f(...): run the callee as part of this task when nothing else is pending
  if (S.task.depth === 0 && S.microQ.q.length === 0) {
    let x = e; while (x.kind === K.ParenthesizedExpression) x = x.expression;
    if (x.kind === K.CallExpression) {
      const v = yield* evChainIn(x, sc, true);
      return yield* awaitV(v === SHORT ? undefined : v);
    }
  }
  return yield* awaitV(yield* ev(e, sc));
}
// generators
function makeGenerator(f, sc, args) {
  const g = new JObj("Generator", f.isAsync ? protos.AsyncGenerator : protos.Generator);
  g.isAsync = f.isAsync;
  g.gstate = "start";
  g.mk = function* () { yield* bindParams(f.node, args, sc); return yield* runBody(f, f.node, f.node.body, sc); };
  return g;
}
export function* genResume(g, mode, val) {
  if (g.gstate === "done") { if (mode === "throw") throw new JSThrow(val); return { done: true, value: mode === "return" ? val : undefined }; }
  if (S.regions.length > 1 && g.gstate !== "start") throw new NeedFork(S.regions.slice(1));
  if (S.regions.length > 1) throw new NeedFork(S.regions.slice(1));
  if (g.gstate === "start") {
    if (mode === "return") { set(g, "gstate", "done"); return { done: true, value: val }; }
    if (mode === "throw") { set(g, "gstate", "done"); throw new JSThrow(val); }
    g.gen = g.mk();
    set(g, "gstate", "running");
  }
  try {
    let r = mode === "next" ? g.gen.next(val) : mode === "throw" ? g.gen.throw(new JSThrow(val)) : g.gen.throw(new GenReturn(val));
    for (;;) {
      if (r.done) { set(g, "gstate", "done"); return { done: true, value: r.value }; }
      const req = r.value;
      if (req && req[YIELD]) return { done: false, value: req.v };
      let x;
      try { x = yield req; } catch (e) { r = g.gen.throw(e); continue; }
      r = g.gen.next(x);
    }
  } catch (e) {
    set(g, "gstate", "done");
    if (e instanceof GenReturn) return { done: true, value: e.value };
    throw e;
  }
}
function* drainSync(g) {
  const out = [];
  for (let i = 0; i < 10000; i++) { const r = yield* genResume(g, "next"); if (r.done) return out; out.push({ t: "e", g: t.T, v: r.value }); }
  throw new Unsupported("generator too long");
}
function* evYield(n, sc) {
  const v = n.expression ? yield* ev(n.expression, sc) : undefined;
  if (n.asteriskToken) {
    const rope = yield* iterToRope(v);
    for (const x of concreteVals(rope)) yield* doYield(x);
    return undefined;
  }
  return yield* doYield(v);
}
function* doYield(v) {
  if (S.sink) { const s = S.sink; return yield* s(v); }
  return yield { [YIELD]: true, v };
}
// run an (async) generator to completion pushing every yielded value through sink
export function* drainWithSink(g, sink) {
  const saved = S.sink;
  S.sink = sink;
  try {
    g.gstate = "done";
    try { return { k: "return", v: yield* g.mk() }; }
    catch (e) { if (e instanceof GenReturn) return { k: "stopped" }; throw e; }
  } finally { S.sink = saved; }
}
export const hooksI = { dynamicImport: null, arrayJoin: null, idle: function* () { return false; } };
export { execStmts, hoist, TDZ, exploreRaw, bindPattern as bindPat, evChain };
