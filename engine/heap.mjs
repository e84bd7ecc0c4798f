// Heap objects, layered stores, sequence ropes, symbolic input typing, existential/universal index reasoning.
import * as t from "./terms.mjs";
import { S, set, assume, pushPc, known, decide, freshTerm, Sym, Union, JSymbol, Unsupported, JSThrow, hooks, sortOf, termOf, fromTerm, mkBool, mkNum, mkStr, mkAny, mergeValues, iteValue, mapU, toVal, strictEq, emptyStore, guardSeg, flatAlts } from "./core.mjs";

export class JObj {
  constructor(cls, proto) { this.cls = cls; this.proto = proto ?? null; this.id = S.objId++; this.store = emptyStore; this.ix = S.idxStack.length ? S.idxStack.slice() : null; }
}
export const protos = {};
export const newObj = () => new JObj("Object", protos.Object);
export function newArr(rope = []) { const a = new JObj("Array", protos.Array); a.rope = rope; return a; }
export const arrOf = (vals) => newArr(vals.map((v) => ({ t: "e", g: t.T, v })));
export const isObj = (v) => v instanceof JObj;
export const isFn = (v) => v instanceof JObj && v.cls === "Function";
const refKinds = { VObj: "Object", VArr: "Array", VFun: "Function" };

hooks.toValObj = (o) => {
  if (o.symTerm) return o.symTerm;
  hooks.byId.set(o.id, o);
  return t.con(o.cls === "Array" ? "VArr" : o.cls === "Function" ? "VFun" : "VObj", t.int(o.id));
};

// ---------- typed symbolic inputs ----------
// type descriptors: {k:'str'|'num'|'int'|'bool'|'any'|'undef'|'null'|'lit'|'union'|'obj'|'arr'|'dict', ...}
const KIND = { str: "VS", num: "VN", int: "VN", bool: "VB", undef: "VUndef", null: "VNull", obj: "VObj", dict: "VObj", arr: "VArr", fn: "VFun" };
export const anyT = { k: "any" };
const litKind = (v) => v === undefined ? "VUndef" : v === null ? "VNull" : typeof v === "string" ? "VS" : typeof v === "number" ? "VN" : "VB";
export const typeOfTerm = new Map(); // term.id -> type
function flatTypes(ty) { return ty.k === "union" ? ty.of.flatMap(flatTypes) : [ty]; }
export function typed(term, ty) {
  ty = ty ?? anyT;
  if (ty.k === "any") { if (!typeOfTerm.has(term.id)) typeOfTerm.set(term.id, ty); return fromTerm("any", term); }
  if (ty.k === "union") {
    const alts = flatTypes(ty);
    if (alts.some((a) => a.k === "any")) return typed(term, anyT);
    const out = []; let rest = t.T;
    const seenKinds = new Map();
    for (const a of alts) { const k = a.k === "lit" ? litKind(a.v[0]) : KIND[a.k]; seenKinds.set(k, (seenKinds.get(k) || 0) + 1); }
    alts.forEach((a, i) => {
      const k = a.k === "lit" ? litKind(a.v[0]) : KIND[a.k];
      let g = t.is(k, term);
      if (seenKinds.get(k) > 1) {
        if (a.k === "lit") g = t.and(g, t.or(...a.v.map((l) => t.eq(term, toVal(l)))));
        else g = t.and(g, t.app("alt" + i, [term], "Bool"));
      }
      g = t.and(rest, g);
      rest = t.and(rest, t.not(g));
      if (g !== t.F) out.push({ g, v: typedKind(term, a, g) });
    });
    assume(t.or(...out.map((o) => o.g)));
    return mergeValues(out);
  }
  if (ty.k === "lit") {
    // the kind is recorded before the assumption is built, so that a replay builds the same term
    const kinds = new Set(ty.v.map(litKind));
    if (kinds.size === 1) t.knownIs.set(term.id, [...kinds][0]);
    assume(t.or(...ty.v.map((l) => t.eq(term, toVal(l)))));
    if (kinds.size === 1) return fromTerm("any", term);
    return new Sym("any", term);
  }
  t.knownIs.set(term.id, KIND[ty.k]);
  return typedKind(term, ty, t.T);
}
function typedKind(term, ty, g) {
  switch (ty.k) {
    case "str": { const x = t.acc("vs", term); if (ty.facts) for (const f of ty.facts) assume(t.implies(g, f(x))); if (ty.nonEmpty) assume(t.implies(g, t.not(t.eq(x, t.str(""))))); if (ty.maxLen != null) assume(t.implies(g, t.le(t.strlen(x), t.int(ty.maxLen)))); if (ty.re) assume(t.implies(g, hooks.reTest(x, ty.re))); return mkStr(x); }
    case "num": case "int": {
      let x = t.acc("vn", term);
      if (ty.k === "int") { const i = t.app("ival", [term], "Int"); assume(t.implies(g, t.eq(x, t.toReal(i)))); x = t.toReal(i); }
      if (ty.min !== undefined) assume(t.implies(g, t.ge(x, t.real(ty.min))));
      if (ty.max !== undefined) assume(t.implies(g, t.le(x, t.real(ty.max))));
      return mkNum(x);
    }
    case "bool": return mkBool(t.acc("vb", term));
    case "undef": return undefined;
    case "null": return null;
    case "lit": {
      const as = ty.v.map((l) => ({ g: t.eq(term, toVal(l)), v: l }));
      assume(t.implies(g, t.or(...as.map((a) => a.g))));
      return mergeValues(as);
    }
    case "obj": case "dict": return materialise(term, "VObj", ty);
    case "arr": return materialise(term, "VArr", ty);
    case "fn": return materialise(term, "VFun", ty);
  }
  throw new Error("typedKind " + ty.k);
}
const matMemo = new Map();
// may the object named by this term also be reached under another name (element of a sequence, entry of a dictionary)?
function aliased(term) {
  if (term.op === "const") return false;
  if (term.op === "app:get0" && term.args[1].op === "str") { const p = matMemo.get(term.args[0].id + "VObj"); return !(p && p.symType && p.symType.k === "obj") || aliased(term.args[0]); }
  return true;
}
export function materialise(term, kind, ty) {
  const key = term.id + kind;
  let o = matMemo.get(key);
  if (!o) {
    if (kind === "VFun") {
      o = new JObj("Function", protos.Function); o.symTerm = term; o.native = function* () { throw new Unsupported("call of unknown function " + term); };
    } else if (kind === "VArr") {
      o = new JObj("Array", protos.Array); o.symTerm = term; o.symType = ty ?? anyT;
      o.rope = [srcSeg(arrSrc(term, ty && ty.k === "arr" ? ty.of : anyT))];
    } else {
      o = new JObj("Object", protos.Object); o.symTerm = term; o.symType = ty ?? anyT;
      o.store = { base: { term, type: ty ?? anyT }, ents: [] };
    }
    o.ix = null;
    if (aliased(term)) o.shared = true;
    matMemo.set(key, o);
  }
  if (kind === "VArr") { assume(t.ge(t.app("len0", [term], "Int"), t.int(0))); if (ty && ty.minLen) assume(t.ge(t.app("len0", [term], "Int"), t.int(ty.minLen))); if (ty && ty.maxLen != null) assume(t.le(t.app("len0", [term], "Int"), t.int(ty.maxLen))); }
  return o;
}
hooks.materialise = (term, k) => materialise(term, k, typeOfTerm.get(term.id));
// sources
const srcMemo = new Map();
export function arrSrc(term, elemType) {
  let s = srcMemo.get("a" + term.id);
  if (!s) { s = { kind: "arr", term, elemType, n: t.app("len0", [term], "Int"), key: "a" + term.id }; srcMemo.set(s.key, s); }
  return s;
}
export function dictSrc(term, valType) {
  let s = srcMemo.get("d" + term.id);
  if (!s) { s = { kind: "dict", term, valType, n: t.app("nkeys0", [term], "Int"), key: "d" + term.id }; srcMemo.set(s.key, s); }
  assume(t.ge(s.n, t.int(0)));
  return s;
}
export function rangeSrc() { return { kind: "range", key: "r" }; }
let opaqueN = 0;
export function opaqueSrc(elemType) { // unknown sequence
  const nm = freshTerm("seq", "Val");
  const s = arrSrc(nm, elemType ?? anyT);
  assume(t.ge(s.n, t.int(0)));
  return s;
}
export function srcElem(src, i) {
  noteIndex(src, i);
  if (src.kind === "arr") return typed(t.app("elt0", [src.term, i], "Val"), src.elemType);
  if (src.kind === "range") return mkNum(t.toReal(i));
  if (src.kind === "dict") {
    const k = t.app("keyAt", [src.term, i], "String");
    assume(t.implies(t.and(t.le(t.int(0), i), t.lt(i, src.n)), t.app("has0", [src.term, k], "Bool")));
    assume(t.implies(t.and(t.le(t.int(0), i), t.lt(i, src.n)), t.eq(t.app("idxOf", [src.term, k], "Int"), i)));
    return { key: mkStr(k), val: typed(t.app("get0", [src.term, k], "Val"), src.valType) };
  }
  if (src.kind === "uniq") return src.elem(i);
  if (src.kind === "split") return mkStr(t.app("splitElt", [src.term, t.str(src.sep), i], "String"));
  throw new Error("srcElem");
}
export function srcSeg(src, lo, hi) {
  const idx = t.cst("ix$" + src.key, "Int");
  return { t: "c", g: t.T, src, lo: lo ?? t.int(0), hi: hi ?? src.n, idx, items: null }; // items null: identity over source
}
// ---------- universals over sources ----------
S.univ = { v: [] }; S.insts = { v: [] };
export function noteIndex(src, i) {
  if (S.insts.v.some((x) => x.key === src.key && x.i === i)) return;
  set(S.insts, "v", [...S.insts.v, { key: src.key, i }]);
  for (const u of S.univ.v) if (u.key === src.key) pushPc(instU(u, i));
}
function instU(u, i) { return t.implies(t.and(u.g, t.le(u.lo, i), t.lt(i, u.hi)), t.subst(u.body, new Map([[u.idx, i]]))); }
export function addUniversal(src, lo, hi, idx, body, g = t.T) {
  if (body === t.T) return;
  const u = { key: src.key, lo, hi, idx, body, g };
  set(S.univ, "v", [...S.univ.v, u]);
  for (const x of S.insts.v) if (x.key === src.key) pushPc(instU(u, x.i));
}
const exMemo = { v: new Map() };
S.exMemo = exMemo;
// exists lo<=idx<hi. body(idx).  mode 'first' | 'last' | 'any'
export function existsIdx(src, lo, hi, idx, body, mode = "first") {
  if (body === t.F) return { ex: t.F, j: lo };
  const ph = t.cst("ph$", "Int");
  const canon = t.subst(body, new Map([[idx, ph]]));
  const key = src.key + "|" + lo.id + "|" + hi.id + "|" + canon.id + "|" + mode;
  let r = exMemo.v.get(key);
  const ss = S.idxStack.filter((x) => [...collectConsts(canon)].includes(x));
  if (!r) {
    const nm = "ex" + exMemo.v.size + "$" + canon.id;
    const args = ss;
    const ex = args.length ? t.app(nm, args, "Bool") : t.cst(nm, "Bool");
    const j = args.length ? t.app(nm + "j", args, "Int") : t.cst(nm + "j", "Int");
    r = { ex, j };
    exMemo.v.set(key, r);
  }
  // facts are (re-)asserted on each use, since the path condition may have been rolled back
  const at = (i) => t.subst(canon, new Map([[ph, i]]));
  pushPc(t.implies(r.ex, t.and(t.le(lo, r.j), t.lt(r.j, hi), at(r.j))));
  addUniversal(src, lo, hi, ph, t.not(canon), t.not(r.ex));
  if (mode === "first") addUniversal(src, lo, r.j, ph, t.not(canon), r.ex);
  if (mode === "last") addUniversal(src, t.iadd(r.j, t.int(1)), hi, ph, t.not(canon), r.ex);
  noteIndex(src, r.j);
  return r;
}
function collectConsts(x, out = new Set(), seen = new Set()) { if (seen.has(x.id)) return out; seen.add(x.id); if (x.op === "const") out.add(x); for (const a of x.args) collectConsts(a, out, seen); return out; }

// ---------- substitution in values (for comprehension templates) ----------
const cloneMemo = new Map();
export function substValue(v, map) {
  if (map.size === 0) return v;
  if (v instanceof Sym) { const n = t.subst(v.term, map); return n === v.term ? v : v.sort === "any" ? typedSubst(v.term, n) : fromTerm(v.sort, n); }
  if (v instanceof Union) return mergeValues(v.alts.map((a) => ({ g: t.subst(a.g, map), v: substValue(a.v, map) })));
  if (v instanceof JObj) {
    if (v.symTerm) { const n = t.subst(v.symTerm, map); if (n === v.symTerm) return v; if (n.op === "ite") return fromTerm("any", n); return materialise(n, v.cls === "Array" ? "VArr" : v.cls === "Function" ? "VFun" : "VObj", v.symType); }
    if (!valueMentions(v, map)) return v;
    return cloneTmpl(v, map);
  }
  if (isPair(v)) return { key: substValue(v.key, map), val: substValue(v.val, map) };
  return v;
}
// copy of an object created in a summarised loop for another index; identity is decided by root object and index terms
const HOST_KEEP = new Set(["cls", "proto", "id", "ix", "root", "args", "store", "rope", "mstore", "scope", "reactions"]);
function cloneTmpl(v, map) {
  const ck = (v.root ?? v).id + "|" + (v.args ? v.args.map((x) => x.id).join(",") : "") + "|" + v.id + "|" + [...map].map(([a, b]) => a.id + ">" + b.id).join(";");
  let c = cloneMemo.get(ck);
  if (c && c.store === v.store && c.rope === v.rope && c.mstore === v.mstore && c.state === v.state && c.value === v.value) return c.o;
  if (v.cls === "Function" && !v.node && !v.classNode) throw new Unsupported("host function created in a summarised loop");
  if (v.cls === "Function" && v.classNode) throw new Unsupported("class created in a summarised loop");
  const o = new JObj(v.cls, v.proto);
  c = { store: v.store, rope: v.rope, mstore: v.mstore, state: v.state, value: v.value, o };
  cloneMemo.set(ck, c);
  for (const k of Object.keys(v)) if (!HOST_KEEP.has(k)) { const x = v[k]; o[k] = x instanceof Sym || x instanceof Union || x instanceof JObj ? substValue(x, map) : x; }
  if (v.ix || v.args) { o.root = v.root ?? v; o.args = (v.args ?? v.ix).map((x) => t.subst(x, map)); o.ix = v.ix; }
  if (v.scope) o.scope = cloneScope(v.scope, map);
  if (v.reactions) { if (v.reactions.length) throw new Unsupported("pending continuation created in a summarised loop"); o.reactions = []; }
  o.store = substStore(v.store, map);
  if (v.mstore) o.mstore = substStore(v.mstore, map);
  if (v.rope) o.rope = substRope(v.rope, map);
  return o;
}
function cloneScope(sc, map) {
  if (!sc || !sc.ix || !sc.ix.some((x) => map.has(x))) return sc;
  const key = "s" + sc.id + "|" + [...map].map(([a, b]) => a.id + ">" + b.id).join(";");
  let c = cloneMemo.get(key); if (c) return c;
  c = Object.create(Object.getPrototypeOf(sc));
  cloneMemo.set(key, c);
  c.parent = cloneScope(sc.parent, map); c.vars = new Map(); c.id = S.objId++; c.ix = sc.ix;
  c.fn = sc.fn ? { ...sc.fn, thisV: substValue(sc.fn.thisV, map), args: sc.fn.args } : sc.fn;
  for (const [n, cell] of sc.vars) { const d = Object.create(Object.getPrototypeOf(cell)); Object.assign(d, cell); d.id = S.objId++; d.v = substValue(cell.v, map); d.args = []; c.vars.set(n, d); }
  return c;
}
const isPair = (v) => v !== null && typeof v === "object" && !(v instanceof JObj) && !(v instanceof JSymbol) && "key" in v && "val" in v;
function typedSubst(oldT, newT) { const ty = typeOfTerm.get(oldT.id); if (ty) typeOfTerm.set(newT.id, ty); return fromTerm("any", newT); }
export function substStore(s, map) {
  return {
    base: s.base ? { term: t.subst(s.base.term, map), type: s.base.type } : null,
    ents: s.ents.map((e) => e.bulk ? { ...e, g: t.subst(e.g, map), bulk: { ...e.bulk, items: e.bulk.items.map((it) => ({ g: t.subst(it.g, map), k: typeof it.k === "string" ? it.k : t.subst(it.k, map), v: substValue(it.v, map) })) } }
      : e.ov ? { ...e, g: t.subst(e.g, map), ov: substStore(e.ov, map) }
      : { ...e, g: t.subst(e.g, map), k: typeof e.k === "string" ? e.k : normKey(t.subst(e.k, map)), v: substValue(e.v, map) }),
  };
}
export function substRope(r, map) {
  return r.map((s) => {
    const g = t.subst(s.g, map);
    if (s.t === "e") return { ...s, g, v: substValue(s.v, map) };
    if (s.t === "c") {
      let src = s.src;
      if (src.term) { const n = t.subst(src.term, map); if (n !== src.term) src = src.kind === "arr" ? arrSrc(n, src.elemType) : src.kind === "dict" ? dictSrc(n, src.valType) : { ...src, term: n, key: src.kind + n.id }; }
      if (map.has(s.idx)) throw new Error("substRope captures");
      return { ...s, g, src, lo: t.subst(s.lo, map), hi: s.hi === s.src.n ? src.n : t.subst(s.hi, map), items: s.items ? substRope(s.items, map) : null };
    }
    if (s.t === "u") return { ...s, g, rope: substRope(s.rope, map) };
    return s;
  });
}
export function valueMentions(v, map, seen = new Set()) {
  const m = (x) => { for (const k of map.keys()) if (t.mentions(x, k)) return true; return false; };
  if (v instanceof Sym) return m(v.term);
  if (v instanceof Union) return v.alts.some((a) => m(a.g) || valueMentions(a.v, map, seen));
  if (v instanceof JObj) {
    if (seen.has(v)) return false; seen.add(v);
    if (v.symTerm && m(v.symTerm)) return true;
    if (!v.symTerm && (v.args ? v.args.some(m) : v.ix && v.ix.some((x) => map.has(x)))) return true;
    if (v.symTerm && !v.store.ents.length) return false;
    return storeMentions(v.store, map, seen) || (v.rope ? ropeMentions(v.rope, map, seen) : false) || (v.mstore ? storeMentions(v.mstore, map, seen) : false) || (v.cls === "Promise" && valueMentions(v.value, map, seen));
  }
  if (isPair(v)) return valueMentions(v.key, map, seen) || valueMentions(v.val, map, seen);
  return false;
}
function storeMentions(s, map, seen) {
  const m = (x) => { for (const k of map.keys()) if (t.mentions(x, k)) return true; return false; };
  if (s.base && m(s.base.term)) return true;
  return s.ents.some((e) => m(e.g) || (e.bulk ? e.bulk.items.some((i) => m(i.g) || (typeof i.k !== "string" && m(i.k)) || valueMentions(i.v, map, seen)) : e.ov ? storeMentions(e.ov, map, seen) : (typeof e.k !== "string" && m(e.k)) || valueMentions(e.v, map, seen)));
}
function ropeMentions(r, map, seen) {
  const m = (x) => { for (const k of map.keys()) if (t.mentions(x, k)) return true; return false; };
  return r.some((s) => m(s.g) || (s.t === "e" ? valueMentions(s.v, map, seen) : s.t === "c" ? m(s.lo) || m(s.hi) || (s.src.term && m(s.src.term)) || (s.items && ropeMentions(s.items, map, seen)) : s.t === "u" ? ropeMentions(s.rope, map, seen) : false));
}

// ---------- stores ----------
export const normKey = (k) => (typeof k === "string" ? k : k.op === "str" ? k.data : k);
const keyTerm = (k) => (typeof k === "string" ? t.str(k) : k);
function keyEq(a, b) {
  if (typeof a === "string" && typeof b === "string") return a === b ? t.T : t.F;
  if ((typeof a === "string" && a.startsWith("\uE000@")) || (typeof b === "string" && b.startsWith("\uE000@"))) return t.F;
  return t.eq(keyTerm(a), keyTerm(b));
}
export function isOpt(ty) { return ty.k === "union" && ty.of.some((x) => x.k === "undef" || (x.k === "union" && isOpt(x))); }
export function lookupBase(base, k) { // {has, val}
  const { term, type } = base;
  if (type.k === "obj") {
    if (typeof k === "string") {
      const ty = type.props[k];
      if (!ty) {
        if (!type.open) return { has: t.F, val: undefined };
        return dictLookup(term, k, anyT, true);
      }
      const child = t.app("get0", [term, t.str(k)], "Val");
      if (isOpt(ty)) {
        const has = t.app("has0", [term, t.str(k)], "Bool");
        assume(t.implies(t.not(has), t.is("VUndef", child)));
        return { has, val: typed(child, ty) };
      }
      return { has: t.T, val: typed(child, ty) };
    }
    if (type.open) throw new Unsupported("symbolic key on open object");
    const alts = []; let has = t.F;
    for (const p of Object.keys(type.props)) { const c = keyEq(p, k); if (c === t.F) continue; const r = lookupBase(base, p); alts.push({ g: c, v: r.val }); has = t.or(has, t.and(c, r.has)); }
    alts.push({ g: t.not(t.or(...alts.map((a) => a.g))), v: undefined });
    return { has, val: mergeValues(alts) };
  }
  if (type.k === "dict") return dictLookup(term, k, type.of, false);
  return dictLookup(term, k, anyT, true);
}
function dictLookup(term, k, ty, any) {
  if (typeof k === "string" && k.startsWith("\uE000@")) return { has: t.F, val: undefined };
  const kt = keyTerm(k);
  const has = t.app("has0", [term, kt], "Bool");
  const child = t.app("get0", [term, kt], "Val");
  const ds = srcMemo.get("d" + term.id);
  if (ds && !(kt.op === "app:keyAt" && kt.args[0] === term)) { const j = t.app("idxOf", [term, kt], "Int"); assume(t.implies(has, t.and(t.le(t.int(0), j), t.lt(j, ds.n), t.eq(t.app("keyAt", [term, j], "String"), kt)))); noteIndex(ds, j); }
  if (any || ty.k === "any") { assume(t.implies(t.not(has), t.is("VUndef", child))); return { has, val: typed(child, anyT) }; }
  return { has, val: iteValue(has, typed(child, ty), undefined) };
}
export function lookup(store, k) { // {has:term, val}
  const alts = []; let rem = t.T, has = t.F;
  const ents = store.ents;
  for (let i = ents.length - 1; i >= 0; i--) {
    const e = ents[i];
    if (e.ov) {
      const r = lookup(e.ov, k);
      const c = t.and(rem, e.g, r.has);
      if (c !== t.F) { alts.push({ g: c, v: r.val }); has = t.or(has, c); }
      rem = t.and(rem, t.not(t.and(e.g, r.has)));
    } else if (e.bulk) {
      const r = lookupBulk(e.bulk, k);
      const c = t.and(rem, e.g, r.has);
      if (c !== t.F) { alts.push({ g: c, v: r.val }); has = t.or(has, c); }
      rem = t.and(rem, t.not(t.and(e.g, r.has)));
    } else if (e.opaque) {
      const kt = keyTerm(k);
      const h = t.app("has0", [e.opaque, kt], "Bool");
      const c = t.and(rem, e.g, h);
      alts.push({ g: c, v: mkAny(t.app("get0", [e.opaque, kt], "Val")) }); has = t.or(has, c);
      rem = t.and(rem, t.not(t.and(e.g, h)));
    } else {
      const q = keyEq(e.k, k);
      if (q === t.F) continue;
      const hit = t.and(e.g, q);
      const c = t.and(rem, hit);
      if (c === t.F) continue;
      if (e.acc) { if (c !== t.T) { if (!decide(hit)) continue; } return { has: t.T, val: undefined, acc: e.acc }; }
      if (!e.del) { alts.push({ g: c, v: e.v }); has = t.or(has, c); } else alts.push({ g: c, v: undefined });
      rem = t.and(rem, t.not(hit));
    }
    if (rem === t.F) break;
  }
  if (rem !== t.F) {
    if (store.base) { const r = lookupBase(store.base, k); if (r.has !== t.F) { alts.push({ g: rem, v: r.val }); has = t.or(has, t.and(rem, r.has)); } else alts.push({ g: rem, v: undefined }); }
    else alts.push({ g: rem, v: undefined });
  }
  return { has, val: mergeValues(alts) };
}
function lookupBulk(b, k) {
  const src = b.src;
  let has = t.F; const alts = [];
  const kt = keyTerm(k);
  for (let n = b.items.length - 1; n >= 0; n--) {
    const it = b.items[n];
    const ik = keyTerm(it.k);
    let done = false;
    if (src.kind === "dict") {
      const kx = t.app("keyAt", [src.term, b.idx], "String");
      const parts = t.catList(ik);
      const pos = parts.indexOf(kx);
      if (pos >= 0 && parts.filter((p) => t.mentions(p, b.idx)).length === 1 && pos === parts.length - 1) {
        const pre = t.concat(...parts.slice(0, pos));
        const ok = t.prefixof(pre, kt);
        const rest = pos === 0 ? kt : t.substr(kt, t.strlen(pre), t.isub(t.strlen(kt), t.strlen(pre)));
        const restC = stripPrefix(pre, kt) ?? rest;
        const j = t.app("idxOf", [src.term, restC], "Int");
        const m = new Map([[kx, restC], [b.idx, j]]);
        const inR = t.app("has0", [src.term, restC], "Bool");
        if (pos !== 0 && ok !== t.T) assume(t.implies(ok, t.eq(kt, t.concat(pre, restC))));
        assume(t.implies(inR, t.and(t.le(t.int(0), j), t.lt(j, src.n), t.eq(t.app("keyAt", [src.term, j], "String"), restC))));
        noteIndex(src, j);
        const c = t.and(ok, inR, substG(it.g, m));
        alts.push({ g: t.and(t.not(has), c), v: substValue(it.v, m) });
        has = t.or(has, c);
        done = true;
      }
    }
    if (!done) {
      if (b.items.length > 1) throw new Unsupported("bulk layer with several non-invertible keys");
      const body = t.and(it.g, t.eq(ik, kt));
      const { ex, j } = existsIdx(src, b.lo, b.hi, b.idx, body, "last");
      alts.push({ g: ex, v: substValue(it.v, new Map([[b.idx, j]])) });
      has = ex;
    }
  }
  alts.push({ g: t.not(has), v: undefined });
  return { has, val: mergeValues(alts) };
}
const substG = (g, m) => t.subst(g, m);
export function stripPrefix(pre, k) {
  const a = t.catList(pre), b = t.catList(k);
  let i = 0;
  for (; i < a.length; i++) {
    if (i < b.length && a[i] === b[i]) continue;
    if (i === a.length - 1 && i < b.length && a[i].op === "str" && b[i].op === "str" && b[i].data.startsWith(a[i].data)) return t.concat(t.str(b[i].data.slice(a[i].data.length)), ...b.slice(i + 1));
    return null;
  }
  return t.concat(...b.slice(i));
}
export function storeSet(store, k, v, g = t.T) {
  k = normKey(k);
  const ents = store.ents;
  if (typeof k === "string" && g === t.T) {
    for (let i = ents.length - 1; i >= 0; i--) {
      const e = ents[i];
      if (e.ov || e.bulk || e.opaque || typeof e.k !== "string") break;
      if (e.k === k) {
        if (e.g === t.T && !e.del) { const n = ents.slice(); n[i] = { k, g: t.T, v }; return { base: store.base, ents: n }; }
        break;
      }
    }
  }
  return { base: store.base, ents: [...ents, { k, g, v }] };
}
export function storeDel(store, k) {
  k = normKey(k);
  if (typeof k === "string" && !store.base && store.ents.every((e) => !e.ov && !e.bulk && !e.opaque && typeof e.k === "string" && (e.k !== k || e.g === t.T))) return { base: store.base, ents: store.ents.filter((e) => e.k !== k) };
  return { base: store.base, ents: [...store.ents, { k, g: t.T, del: true }] };
}
export const storeAcc = (store, k, acc) => {
  const prev = store.ents.find((e) => e.k === k && e.acc);
  if (prev) return { base: store.base, ents: store.ents.map((e) => (e === prev ? { k, g: t.T, acc: { ...prev.acc, ...acc }, hidden: true } : e)) };
  return { base: store.base, ents: [...store.ents, { k, g: t.T, acc, hidden: true }] };
};
export function storeOverlay(store, other, g = t.T) { // {...store, ...other}
  if (!store.base && store.ents.length === 0 && g === t.T && !other.ents.some((e) => e.hidden || (typeof e.k === "string" && e.k.startsWith("\uE000@")))) return { base: other.base, ents: other.ents };
  if (!other.base && other.ents.every((e) => !e.del && !e.bulk && !e.ov && !e.opaque)) {
    let s = store;
    for (const e of other.ents) { if (e.hidden) continue; s = storeSet(s, e.k, e.v, t.and(g, e.g)); }
    return s;
  }
  return { base: store.base, ents: [...store.ents, { ov: other, g }] };
}
const hiddenKey = (k) => typeof k === "string" && k.startsWith("\uE000@");
// enumerate keys; returns rope whose elements are {key: value, val: value} host pairs (segments 'e' with v = pair)
export function entriesRope(store) {
  const out = [];
  const doneKeys = []; // concrete & symbolic keys done with their segments
  const prevHas = []; // functions k-> term that k already enumerated
  const emitKey = (k) => {
    if (typeof k === "string" && (hiddenKey(k) || doneKeys.includes(k))) return;
    if (typeof k !== "string" && doneKeys.includes(k)) return;
    const r = lookup(store, k);
    if (r.acc) { doneKeys.push(k); return; }
    let g = r.has;
    for (const p of prevHas) g = t.and(g, t.not(p(k)));
    doneKeys.push(k);
    const kk = k; prevHas.push((q) => keyEq(kk, q));
    if (g !== t.F) out.push({ t: "e", g, v: { key: typeof k === "string" ? k : mkStr(k), val: r.val } });
  };
  const visitBase = (base) => {
    if (!base) return;
    if (base.type.k === "obj" && !base.type.open) { for (const p of Object.keys(base.type.props)) emitKey(p); return; }
    if (base.type.k === "obj") for (const p of Object.keys(base.type.props)) emitKey(p);
    const src = dictSrc(base.term, base.type.k === "dict" ? base.type.of : anyT);
    const idx = t.cst("ix$" + src.key, "Int");
    const kx = t.app("keyAt", [src.term, idx], "String");
    const el = srcElem(src, idx);
    const r = store.ents.length === 0 ? { has: t.T, val: el.val } : lookup(store, kx);
    let g = r.has;
    const inSrc = t.app("has0", [src.term, kx], "Bool");
    g = t.subst(g, new Map([[inSrc, t.T]]));
    for (const p of prevHas) g = t.and(g, t.not(p(kx)));
    prevHas.push((q) => t.app("has0", [src.term, keyTerm(q)], "Bool"));
    out.push({ t: "c", g: t.T, src, lo: t.int(0), hi: src.n, idx, items: [{ t: "e", g, v: { key: mkStr(kx), val: r.val } }] });
  };
  const visit = (s) => {
    visitBase(s.base);
    for (const e of s.ents) {
      if (e.hidden) continue;
      if (e.ov) visit(e.ov);
      else if (e.opaque) throw new Unsupported("enumeration of opaque store");
      else if (e.bulk) {
        const b = e.bulk;
        srcElem(b.src, b.idx);
        const items = b.items.map((it) => {
          const r = b.src.kind === "dict" || b.items.length > 1 ? lookup(store, it.k) : { val: it.v };
          let g = t.and(e.g, it.g);
          for (const p of prevHas) g = t.and(g, t.not(p(it.k)));
          return { t: "e", g, v: { key: mkStr(keyTerm(it.k)), val: r.val } };
        });
        if (b.src.kind !== "dict") S.imprecise.v = "enumeration of a bulk store with possibly repeated keys";
        prevHas.push((q) => lookupBulk(b, q).has);
        out.push({ t: "c", g: t.T, src: b.src, lo: b.lo, hi: b.hi, idx: b.idx, items });
      } else if (!e.del) emitKey(e.k);
    }
  };
  visit(store);
  return out;
}

// ---------- ropes ----------
export function segLen(s) {
  if (s.t === "e") return s.g === t.T ? t.int(1) : t.ite(s.g, t.int(1), t.int(0));
  if (s.t === "c") {
    let n;
    if (!s.items || (s.items.length === 1 && s.items[0].t === "e" && s.items[0].g === t.T)) n = s.lo.op === "int" && s.lo.data === 0 ? s.hi : t.isub(s.hi, s.lo);
    else {
      n = t.cst("cnt$" + canonSeg(s), "Int");
      assume(t.ge(n, t.int(0)));
      if (s.items.length === 1 && s.items[0].t === "e") {
        assume(t.le(n, t.isub(s.hi, s.lo)));
        // n = 0 iff no element passes
        const { ex } = existsIdx(s.src, s.lo, s.hi, s.idx, s.items[0].g, "any");
        assume(t.eq(ex, t.gt(n, t.int(0))));
      }
    }
    return s.g === t.T ? n : t.ite(s.g, n, t.int(0));
  }
  if (s.t === "u") {
    const l = ropeLen(s.rope);
    if (l.op === "int" && l.data <= 1) return l;
    const n = t.cst("ulen$" + canonRope(s.rope), "Int");
    assume(t.and(t.ge(n, t.int(0)), t.le(n, l), t.eq(t.eq(n, t.int(0)), t.eq(l, t.int(0)))));
    return n;
  }
  throw new Error("segLen");
}
export const ropeLen = (r) => t.iadd(...r.map(segLen));
const canonIds = new Map();
export function canonStrToId(s) { let i = canonIds.get(s); if (!i) canonIds.set(s, (i = canonIds.size + 1)); return i; }
export function canonSeg(s) { return canonStrToId(canonSegStr(s)); }
const PH = t.cst("phc$", "Int");
let canonDepth = 0;
function canonSegStr(s) {
  if (s.t === "e") return "e" + s.g.id + ":" + canonValue(s.v);
  if (s.t === "u") return "u" + s.g.id + "(" + canonRope(s.rope) + ")";
  // the items of a mapped segment are terms over the index alone, so the iterated source does not matter
  if (!s.items) return "c" + s.g.id + "/" + s.src.key + "/" + s.lo.id + "/" + s.hi.id + "/id";
  const m = new Map([[s.idx, t.cst("phc$" + canonDepth, "Int")]]);
  canonDepth++;
  try { return "c" + s.g.id + "/" + s.lo.id + "/" + s.hi.id + "/" + substRope(s.items, m).map(canonSegStr).join(";"); } finally { canonDepth--; }
}
export const canonRope = (r) => canonStrToId(r.map(canonSegStr).join("|"));
export function canonValue(v, depth = 0) {
  if (depth > 12) return "deep";
  if (v instanceof Sym) return v.sort + v.term.id;
  if (v instanceof Union) return "U{" + v.alts.map((a) => a.g.id + ":" + canonValue(a.v, depth + 1)).sort().join(",") + "}";
  if (v instanceof JObj) {
    if (v.symTerm && (v.cls === "Array" ? isPureInput(v) : v.store.ents.length === 0)) return "T" + v.symTerm.id;
    if (v.cls === "Array") return "A[" + v.rope.map(canonSegStr).join(";") + "]";
    if (v.cls === "Object") {
      const s = v.store;
      return "O{" + (s.base ? s.base.term.id : "") + ";" + s.ents.map((e) => e.bulk ? "B" + JSON.stringify([e.g.id, e.bulk.src.key, e.bulk.items.map((i) => [i.g.id, typeof i.k === "string" ? i.k : i.k.id, canonValue(i.v, depth + 1)])]) : e.ov ? "V" + e.g.id + canonValue({ __proto__: JObj.prototype, cls: "Object", store: e.ov }, depth + 1) : (e.del ? "-" : "") + e.g.id + (typeof e.k === "string" ? JSON.stringify(e.k) : "#" + e.k.id) + ":" + canonValue(e.v, depth + 1)).join(",") + "}";
    }
    return "R" + v.id;
  }
  if (v && typeof v === "object" && "key" in v && "val" in v) return "P(" + canonValue(v.key) + "," + canonValue(v.val) + ")";
  return typeof v + ":" + String(v);
}
export const isPureInput = (a) => a.rope && a.rope.length === 1 && a.rope[0].t === "c" && !a.rope[0].items && a.rope[0].g === t.T && a.rope[0].src.term === a.symTerm && a.rope[0].hi === a.rope[0].src.n && a.rope[0].lo === t.int(0);
export const isConcreteRope = (r) => r.every((s) => s.t === "e" && s.g === t.T);
export const concreteVals = (r) => r.map((s) => s.v);
// a comprehension over [0, n) contributes nothing when n is 0, so a guard n > 0 on it is redundant
function dropNonEmptyGuard(g, n) {
  const cand = [t.not(t.eq(t.real(0), t.toReal(n))), t.not(t.eq(t.int(0), n)), t.lt(t.int(0), n), t.lt(t.real(0), t.toReal(n))];
  if (cand.includes(g)) return t.T;
  if (g.op === "and" && g.args.some((x) => cand.includes(x))) return t.and(...g.args.filter((x) => !cand.includes(x)));
  return g;
}
export function normRope(r) {
  const out = [];
  for (let s of r) {
    if (s.g === t.F) continue;
    if (s.t === "c" && s.g !== t.T && s.lo === t.int(0)) { const g = dropNonEmptyGuard(s.g, s.hi); if (g !== s.g) s = { ...s, g }; }
    if (s.t === "c" && s.hi === s.lo) continue;
    if (s.t === "u") {
      const inner = normRope(s.rope);
      if (inner.length === 0) continue;
      if (inner.length === 1 && inner[0].t === "e") { out.push(guardSeg(inner[0], s.g)); continue; }
      out.push({ ...s, rope: inner }); continue;
    }
    const l = out[out.length - 1];
    if (l && s.t === "c" && l.t === "c" && l.src.key === s.src.key && l.hi === s.lo && l.g === s.g && sameItems(l, s)) { out[out.length - 1] = { ...l, hi: s.hi }; continue; }
    out.push(s);
  }
  return out;
}
function sameItems(a, b) { return canonSegStr({ ...a, lo: t.int(0), hi: t.int(0) }) === canonSegStr({ ...b, lo: t.int(0), hi: t.int(0) }); }
// element i (Int term) of rope -> value (undefined when out of range)
export function ropeAt(rope, i) {
  rope = normRope(rope);
  const alts = []; let rem = t.T; let off = t.int(0);
  for (const s of rope) {
    if (s.t === "e") {
      const c = t.and(rem, s.g, t.eq(i, off));
      if (c !== t.F) alts.push({ g: c, v: s.v });
      rem = t.and(rem, t.not(t.and(s.g, t.eq(i, off))));
      if (rem === t.F) break;
      off = t.iadd(off, segLen(s));
    } else if (s.t === "c" && s.g === t.T && (!s.items || (s.items.length === 1 && s.items[0].t === "e" && s.items[0].g === t.T))) {
      const n = segLen(s);
      const j = t.iadd(s.lo, t.isub(i, off));
      const inside = t.and(t.le(off, i), t.lt(t.isub(i, off), n));
      const c = t.and(rem, inside);
      if (c !== t.F) {
        const v = s.items ? substValue(s.items[0].v, new Map([[s.idx, j]])) : srcElem(s.src, j);
        alts.push({ g: c, v });
      }
      rem = t.and(rem, t.not(inside));
      off = t.iadd(off, n);
    } else if (s.t === "c" && s.items && s.items.length === 1 && s.items[0].t === "e") {
      // filtered: the i-th passing element: some index j with guard
      const n = segLen(s);
      const inside = t.and(s.g, t.le(off, i), t.lt(t.isub(i, off), n));
      const c = t.and(rem, inside);
      if (c !== t.F) {
        const zero = known(t.eq(i, off)) === true;
        let j;
        if (zero) j = existsIdx(s.src, s.lo, s.hi, s.idx, s.items[0].g, "first").j;
        else { j = freshTerm("fi", "Int"); pushPc(t.implies(inside, t.and(t.le(s.lo, j), t.lt(j, s.hi), t.subst(s.items[0].g, new Map([[s.idx, j]]))))); }
        srcElem(s.src, j);
        alts.push({ g: c, v: substValue(s.items[0].v, new Map([[s.idx, j]])) });
      }
      rem = t.and(rem, t.not(inside));
      off = t.iadd(off, n);
    } else throw new Unsupported("indexing into a compound sequence");
  }
  alts.push({ g: rem, v: undefined });
  return mergeValues(alts);
}
export function ropeSlice(rope, a, b) { // Int terms a<=b within [0,len]
  rope = normRope(rope);
  const out = []; let off = t.int(0);
  const min = (x, y) => { const k = known(t.le(x, y)); return k === true ? x : k === false ? y : t.ite(t.le(x, y), x, y); };
  const max = (x, y) => { const k = known(t.le(x, y)); return k === true ? y : k === false ? x : t.ite(t.le(x, y), y, x); };
  for (const s of rope) {
    const n = segLen(s), end = t.iadd(off, n);
    if (s.t === "e") {
      const c = t.and(t.le(a, off), t.lt(off, b));
      const k = known(c);
      if (k !== false) out.push(k === true ? s : guardSeg(s, c));
    } else if (s.t === "c" && s.g === t.T && (!s.items || (s.items.length === 1 && s.items[0].t === "e" && s.items[0].g === t.T))) {
      const lo = t.iadd(s.lo, t.isub(max(a, off), off)), hi = t.iadd(s.lo, t.isub(max(min(b, end), off), off));
      if (a === off && b === end) out.push(s);
      else out.push({ ...s, lo: (known(t.le(lo, hi)) === true ? lo : t.ite(t.le(lo, hi), lo, hi)), hi });
    } else if (known(t.le(a, off)) === true && known(t.ge(b, end)) === true) out.push(s);
    else throw new Unsupported("slice of a compound sequence");
    off = end;
  }
  return normRope(out);
}
