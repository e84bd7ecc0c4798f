import crypto from "node:crypto";
import * as t from "./terms.mjs";
import { jsRegex } from "./quick.mjs";
import { S, set, assume, pushPc, known, decide, freshTerm, region, Sym, Union, JSymbol, JSThrow, Unsupported, Infeasible, sortOf, termOf, fromTerm, mkBool, mkNum, mkStr, mkAny, mergeValues, iteValue, mapU, mapUTerm, toVal, truthy, isNullish, strictEq, typeOfV, emptyStore, guardSeg, hooks } from "./core.mjs";
import { JObj, protos, newObj, newArr, arrOf, isObj, isFn, lookup, storeSet, storeDel, storeOverlay, entriesRope, ropeLen, ropeAt, ropeSlice, normRope, isConcreteRope, concreteVals, srcElem, srcSeg, existsIdx, addUniversal, substValue, substRope, valueMentions, opaqueSrc, typed, anyT, segLen, canonValue, canonStrToId, isPureInput, arrSrc, canonRope } from "./heap.mjs";
import * as I from "./interp.mjs";
import { call, construct, native, get, put, getV, putV, throwErr, mkError, toStr, toNum, narrow, split, iterToRope, iterToRopeU, iterateRope, OK, globals, pairSeg, keySeg, valSeg, mapEntriesRope, hiddenSet, mkRegExp, newPromise, settle, resolvePromise, then, toPromise, awaitV, propKey, mkSymbol, strConcat, arith, hooksI, enqueue, enumerableStore, spreadInto, isUndef, SpreadArg, genResume, keyToValue } from "./interp.mjs";
import { searchLanguage } from "./regex.mjs";

// ---- protos
const mkProto = (p) => { const o = new JObj("Object", p); return o; };
protos.Object = mkProto(null);
for (const n of ["Function", "Array", "String", "Number", "Boolean", "Symbol", "Promise", "Map", "Set", "WeakMap", "WeakSet", "RegExp", "Date", "Error", "Generator", "AsyncGenerator", "Uint8Array", "URL", "Headers", "AbortController", "AbortSignal", "ArrayBuffer"]) protos[n] = mkProto(protos.Object);
for (const n of ["TypeError", "RangeError", "SyntaxError", "ReferenceError", "EvalError", "AggregateError"]) protos[n] = mkProto(protos.Error);
const G = globals;
const def = (o, n, fn, ctor) => { const f = native(n, fn, ctor); o.store = hiddenSet(o.store, n, f); return f; };
const defV = (o, n, v) => { o.store = hiddenSet(o.store, n, v); };
const defG = (o, n, fn) => { const f = native(n, fn); o.store = { base: null, ents: [...o.store.ents, { k: n, g: t.T, acc: { get: f }, hidden: true }] }; };
const glob = (n, v) => G.declare(n, v);
function ctorFn(name, callFn, newFn) { const f = native(name, callFn, newFn); f.store = hiddenSet(f.store, "prototype", protos[name]); protos[name].store = hiddenSet(protos[name].store, "constructor", f); glob(name, f); return f; }
const args = (a) => a;
const flatArgs = (as) => { const out = []; for (const a of as) { if (a instanceof SpreadArg) out.push(...a.rope); else out.push({ t: "e", g: t.T, v: a }); } return out; };
const S1 = (v) => (v instanceof Sym ? v.term : t.str(v));

// ---- Object
const ObjectC = ctorFn("Object", function* (_, [v]) { return v instanceof JObj ? v : v == null ? newObj() : v; }, function* ([v]) { return v instanceof JObj ? v : newObj(); });
function objEntries(v) {
  v = narrow(v);
  if (v === undefined || v === null) throwErr("TypeError", "Cannot convert undefined or null to object");
  if (!(v instanceof JObj)) { if (typeof v === "string") return [...v].map((c, i) => ({ t: "e", g: t.T, v: { key: String(i), val: c } })); return []; }
  if (v.cls === "Array" && v.rope) { const r = normRope(v.rope); if (isConcreteRope(r)) return r.map((e, i) => ({ t: "e", g: t.T, v: { key: String(i), val: e.v } })); throw new Unsupported("entries of symbolic array"); }
  if (v.exotic?.entries) return [...v.exotic.entries()].map(([k, x]) => ({ t: "e", g: t.T, v: { key: k, val: x } }));
  return entriesRope({ base: v.store.base, ents: v.store.ents.filter((e) => !e.hidden) });
}
const accEntries = function* (v) {
  // evaluate enumerable own accessors of literals
  v = narrow(v);
  if (v instanceof JObj && v.proxy) return yield* accEntries(v.proxy.target);
  return objEntries(v);
};
def(ObjectC, "keys", function* (_, [v]) { return newArr((yield* accEntries(v)).map(keySeg)); });
def(ObjectC, "values", function* (_, [v]) { return newArr((yield* accEntries(v)).map(valSeg)); });
def(ObjectC, "entries", function* (_, [v]) { return newArr((yield* accEntries(v)).map(pairSeg)); });
def(ObjectC, "getOwnPropertyNames", function* (_, [v]) { v = narrow(v); return newArr(entriesRope({ base: v.store.base, ents: v.store.ents.map((e) => ({ ...e, hidden: false, acc: undefined })) }).map(keySeg)); });
def(ObjectC, "assign", function* (_, [tgt, ...srcs]) { const o = narrow(tgt); for (const s of srcs) { set(o, "store", yield* spreadInto(o.store, s)); } return o; });
for (const n of ["freeze", "seal", "preventExtensions"]) def(ObjectC, n, function* (_, [v]) { v = narrow(v); if (v instanceof JObj) { if (n !== "freeze" || v.symTerm) throw new Unsupported("Object." + n); set(v, "frozen", true); } return v; });
def(ObjectC, "create", function* (_, [p, props]) { const o = newObj(); o.proto = p; return o; });
def(ObjectC, "getPrototypeOf", function* (_, [v]) { v = narrow(v); return v instanceof JObj ? v.proto : null; });
def(ObjectC, "setPrototypeOf", function* (_, [v, p]) { if (v instanceof JObj) set(v, "proto", p); return v; });
def(ObjectC, "defineProperty", function* (_, [o, k, d]) { const key = propKey(k); const g = yield* get(d, "get"); const s = yield* get(d, "set"); if (g !== undefined || s !== undefined) set(o, "store", { base: o.store.base, ents: [...o.store.ents.filter((e) => e.k !== key), { k: key, g: t.T, acc: { get: g, set: s }, hidden: true }] }); else { const v = yield* get(d, "value"); const en = yield* get(d, "enumerable"); set(o, "store", en === true ? storeSet(o.store, key, v) : hiddenSet(o.store, key, v)); } return o; });
def(ObjectC, "fromEntries", function* (_, [v]) {
  const o = newObj();
  const r = yield* iterToRopeU(v);
  yield* iterateRope(o, r, function* (p) { yield* putV(o, yield* getV(p, 0), yield* getV(p, 1)); return OK; });
  return o;
});
def(ObjectC, "hasOwn", function* (_, [o, k]) { o = narrow(o); return mkBool(I.ownLookup(o, propKey(k)).has); });
def(ObjectC, "is", function* (_, [a, b]) { return typeof a === "number" && typeof b === "number" ? Object.is(a, b) : mkBool(strictEq(a, b)); });
def(protos.Object, "hasOwnProperty", function* (th, [k]) { return mkBool(I.ownLookup(narrow(th), propKey(k)).has); });
def(protos.Object, "toString", function* (th) { return "[object " + (th instanceof JObj ? (th.cls === "Array" ? "Array" : th.cls === "Date" ? "Date" : "Object") : "Object") + "]"; });
def(protos.Object, "valueOf", function* (th) { return th; });
def(protos.Object, "isPrototypeOf", function* (th, [v]) { let p = v?.proto; while (p) { if (p === th) return true; p = p.proto; } return false; });
def(protos.Object, "propertyIsEnumerable", function* (th, [k]) { return mkBool(I.ownLookup(narrow(th), propKey(k)).has); });

// ---- Function
const FunctionC = ctorFn("Function", function* () { throw new Unsupported("Function()"); });
def(protos.Function, "call", function* (th, [t0, ...as]) { return yield* call(th, t0, as); });
export function smallRope(r, why) { // case split on the length of a short symbolic sequence
  if (isConcreteRope(r)) return r;
  const n = ropeLen(r);
  for (let k = 0; k <= 3; k++) if (decide(t.eq(n, t.int(k)))) return Array.from({ length: k }, (_, i) => ({ t: "e", g: t.T, v: ropeAt(r, t.int(i)) }));
  throw new Unsupported(why);
}
def(protos.Function, "apply", function* (th, [t0, as]) { const r = as === undefined || as === null ? [] : smallRope(normRope(yield* iterToRope(as)), "apply symbolic args"); return yield* call(th, t0, concreteVals(r)); });
def(protos.Function, "bind", function* (th, [t0, ...as]) { const f = new JObj("Function", protos.Function); f.bound = { f: th, thisV: t0, args: as }; f.fname = "bound " + (th.fname || ""); return f; });
def(protos.Function, "toString", function* (th) { return "function " + (th.fname || "") + "() {}"; });

// ---- Symbol
const SymbolC = native("Symbol", function* (_, [d]) { return mkSymbol(d === undefined ? "" : String(d)); });
glob("Symbol", SymbolC); SymbolC.store = hiddenSet(SymbolC.store, "prototype", protos.Symbol);
class WK extends JSymbol { constructor(n) { super(n); this.key = "\uE000@" + n; } }
for (const n of ["iterator", "asyncIterator", "toStringTag", "hasInstance", "toPrimitive"]) { const s = new WK(n); defV(SymbolC, n, s); }
def(SymbolC, "for", function* (_, [d]) { return mkSymbol(d, true); });
def(protos.Symbol, "toString", function* (th) { return `Symbol(${th.desc})`; });

// ---- Error
function errCtor(name) {
  const mk = function* (as, nt) {
    const p = nt ? yield* get(nt, "prototype") : protos[name];
    const e = new JObj("Error", p);
    let s = emptyStore;
    if (as[0] !== undefined) s = hiddenSet(s, "message", yield* toStr(as[0]));
    s = hiddenSet(s, "stack", "stack");
    if (as[1] instanceof JObj) { const c = yield* get(as[1], "cause"); if (c !== undefined) s = hiddenSet(s, "cause", c); }
    e.store = s;
    return e;
  };
  const c = ctorFn(name, function* (_, as) { return yield* mk(as, null); }, mk);
  defV(protos[name], "name", name); defV(protos[name], "message", "");
  return c;
}
const ErrorC = errCtor("Error");
def(ErrorC, "captureStackTrace", function* () {});
for (const n of ["TypeError", "RangeError", "SyntaxError", "ReferenceError", "EvalError", "AggregateError"]) { const c = errCtor(n); c.proto = ErrorC; }
def(protos.Error, "toString", function* (th) { const n = yield* get(th, "name"), m = yield* get(th, "message"); if (m === "") return n; return strConcat(strConcat(yield* toStr(n), ": "), yield* toStr(m)); });

// ---- Boolean / Number / Math
ctorFn("Boolean", function* (_, [v]) { return mkBool(truthy(v)); });
def(protos.Boolean, "toString", function* (th) { return yield* toStr(th); });
const NumberC = ctorFn("Number", function* (_, [v]) { return yield* toNum(v); });
for (const k of ["MAX_SAFE_INTEGER", "MIN_SAFE_INTEGER", "EPSILON", "MAX_VALUE"]) defV(NumberC, k, Number[k]);
defV(NumberC, "POSITIVE_INFINITY", Infinity); defV(NumberC, "NaN", NaN);
glob("NaN", NaN); glob("Infinity", Infinity);
const numPred = (f, symT) => function* (_, [v]) {
  const go = (x) => { const s = sortOf(x); if (s === "num") return x instanceof Sym ? symT(t.toReal(x.term)) : t.bool(f(x)); if (s === "any") return t.and(t.is("VN", x.term), symT(t.acc("vn", x.term))); return t.F; };
  return mkBool(mapUTerm(v, go));
};
def(NumberC, "isInteger", numPred(Number.isInteger, (x) => t.isInt(x)));
def(NumberC, "isSafeInteger", numPred(Number.isSafeInteger, (x) => t.and(t.isInt(x), t.le(x, t.real(Number.MAX_SAFE_INTEGER)), t.le(t.real(Number.MIN_SAFE_INTEGER), x))));
def(NumberC, "isFinite", numPred(Number.isFinite, () => t.T));
def(NumberC, "isNaN", numPred(Number.isNaN, () => t.F));
glob("isNaN", native("isNaN", function* (_, [v]) { const n = yield* toNum(v); return mkBool(mapUTerm(n, (x) => t.bool(typeof x === "number" && x !== x))); }));
glob("isFinite", native("isFinite", function* (_, [v]) { const n = yield* toNum(v); return mkBool(mapUTerm(n, (x) => t.bool(x instanceof Sym || Number.isFinite(x)))); }));
const parseIntF = native("parseInt", function* (_, [v, r]) {
  const s = yield* toStr(v);
  if (typeof s === "string") return parseInt(s, r);
  return mapU(s, (x) => {
    if (typeof x === "string") return parseInt(x, r);
    if (x.term.op === "app:num2str") return mkNum(t.toReal(t.toInt(x.term.args[0])));
    const allDigits = t.inRe(x.term, t.reRaw(`(re.+ (re.range "0" "9"))`));
    const ok = t.app("parseIntOk", [x.term], "Bool"), n = t.app("parseInt", [x.term], "Int");
    pushPc(t.implies(allDigits, t.and(ok, t.eq(n, t.app("digitsVal", [x.term], "Int")), t.ge(n, t.int(0)))));
    return iteValue(ok, mkNum(t.toReal(n)), NaN);
  });
});
glob("parseInt", parseIntF); defV(NumberC, "parseInt", parseIntF);
const parseFloatF = native("parseFloat", function* (_, [v]) { const s = yield* toStr(v); if (typeof s === "string") return parseFloat(s); return mapU(s, (x) => typeof x === "string" ? parseFloat(x) : I.strToNum(x.term)); });
glob("parseFloat", parseFloatF); defV(NumberC, "parseFloat", parseFloatF);
I.hooksI.numericFacts = (s, isNum, n) => {
  const allDigits = t.inRe(s, t.reRaw(`(re.+ (re.range "0" "9"))`));
  pushPc(t.implies(allDigits, t.and(isNum, t.eq(n, t.toReal(t.app("digitsVal", [s], "Int"))), t.ge(n, t.real(0)))));
};
def(protos.Number, "toString", function* (th, [r]) { if (th instanceof Sym) { if (r === 16) return mkStr(t.app("hex", [t.toReal(th.term)], "String")); if (r !== undefined && r !== 10) return mkStr(t.app("num2strR", [t.toReal(th.term), t.real(r)], "String")); return yield* toStr(th); } return th.toString(r); });
def(protos.Number, "toFixed", function* (th, [d]) { if (th instanceof Sym) return mkStr(t.app("toFixed" + (d ?? 0), [t.toReal(th.term)], "String")); return th.toFixed(d); });
def(protos.Number, "toLocaleString", function* (th) { if (th instanceof Sym) return mkStr(t.app("toLocale", [t.toReal(th.term)], "String")); return th.toLocaleString(); });
const MathO = newObj(); glob("Math", MathO);
const minmax = (mx) => function* (_, as) {
  if (as.some((a) => a instanceof SpreadArg)) throw new Unsupported("Math.min/max over symbolic sequence");
  let r = mx ? -Infinity : Infinity;
  for (const a of as) {
    const x = yield* toNum(a);
    r = comb(r, x, mx);
  }
  return r;
};
const comb = (a, b, mx) => {
  if (a instanceof Union) return mapU(a, (x) => comb(x, b, mx));
  if (b instanceof Union) return mapU(b, (x) => comb(a, x, mx));
  if (!(a instanceof Sym) && !(b instanceof Sym)) return mx ? Math.max(a, b) : Math.min(a, b);
  if (typeof a === "number" && !Number.isFinite(a)) return a !== a ? NaN : (a > 0) === mx ? a : b;
  if (typeof b === "number" && !Number.isFinite(b)) return b !== b ? NaN : (b > 0) === mx ? b : a;
  const x = t.toReal(termOf(a)), y = t.toReal(termOf(b));
  return mkNum(t.ite(mx ? t.ge(x, y) : t.le(x, y), x, y));
};
def(MathO, "min", minmax(false)); def(MathO, "max", minmax(true));
const num1 = (n, f, sym) => def(MathO, n, function* (_, [v]) { const x = yield* toNum(v); return mapU(x, (y) => y instanceof Sym ? sym(t.toReal(y.term)) : f(y)); });
num1("floor", Math.floor, (x) => mkNum(t.toReal(t.toInt(x))));
num1("ceil", Math.ceil, (x) => mkNum(t.sub(t.real(0), t.toReal(t.toInt(t.sub(t.real(0), x))))));
num1("round", Math.round, (x) => mkNum(t.toReal(t.toInt(t.add(x, t.real(0.5))))));
num1("trunc", Math.trunc, (x) => mkNum(t.ite(t.ge(x, t.real(0)), t.toReal(t.toInt(x)), t.sub(t.real(0), t.toReal(t.toInt(t.sub(t.real(0), x)))))));
num1("abs", Math.abs, (x) => mkNum(t.ite(t.ge(x, t.real(0)), x, t.sub(t.real(0), x))));
def(MathO, "random", function* () { const x = freshTerm("random", "Real"); assume(t.and(t.ge(x, t.real(0)), t.lt(x, t.real(1)))); return mkNum(x); });
def(MathO, "pow", function* (_, [a, b]) { return arith("**", yield* toNum(a), yield* toNum(b)); });

// ---- String
const StringC = ctorFn("String", function* (_, as) { if (!as.length) return ""; if (as[0] instanceof JSymbol) return `Symbol(${as[0].desc})`; return yield* toStr(as[0]); });
def(StringC, "fromCharCode", function* (_, as) {
  const out = [];
  for (let a of as) { a = split(yield* toNum(a)); out.push(typeof a === "number" ? t.str(String.fromCharCode(a)) : t.app("chr", [a.term], "String")); }
  return mkStr(t.concat(...out));
});
def(StringC, "raw", function* () { throw new Unsupported("String.raw"); });
const strM = (name, concrete, sym) => def(protos.String, name, function* (th, as) {
  if (th instanceof Union) th = split(th);
  if (!(th instanceof Sym) && as.every((a) => !(a instanceof Sym) && !(a instanceof Union) && !(a instanceof JObj))) { const r = concrete(th, ...as); return Array.isArray(r) ? arrOf(r) : r; }
  return yield* sym(th, as);
});
const sArg = function* (v) { return S1(split(yield* toStr(v))); };
const iArg = function* (v) { const n = yield* toNum(v); const x = split(n); if (typeof x === "number") { if (!Number.isFinite(x)) return x > 0 ? t.int(1e9) : x < 0 ? t.int(-1e9) : t.int(0); return t.int(Math.trunc(x)); } return t.toInt(x.term); };
const clamp = (i, len) => { // JS slice-like index normalisation
  if (i.op === "int" && i.data === 0) return i;
  if (i.op === "int" && i.data > 0) { return known(t.le(i, len)) === true ? i : t.ite(t.le(i, len), i, len); }
  if (i.op === "int") { const x = t.iadd(len, i); return t.ite(t.le(t.int(0), x), x, t.int(0)); }
  if (i === len) return len;
  return t.ite(t.lt(i, t.int(0)), t.ite(t.le(t.int(0), t.iadd(len, i)), t.iadd(len, i), t.int(0)), t.ite(t.le(i, len), i, len));
};
strM("startsWith", (s, p, i) => s.startsWith(p, i), function* (s, [p, i]) { if (i !== undefined && i !== 0) { const x = S1(s), ii = yield* iArg(i); return mkBool(t.prefixof(yield* sArg(p), t.substr(x, ii, t.isub(t.strlen(x), ii)))); } return mkBool(t.prefixof(yield* sArg(p), S1(s))); });
strM("endsWith", (s, p) => s.endsWith(p), function* (s, [p]) { return mkBool(t.suffixof(yield* sArg(p), S1(s))); });
strM("includes", (s, p) => s.includes(p), function* (s, [p]) { return mkBool(t.contains(S1(s), yield* sArg(p))); });
strM("indexOf", (s, p, i) => s.indexOf(p, i), function* (s, [p, i]) { return mkNum(t.toReal(t.indexof(S1(s), yield* sArg(p), i === undefined ? t.int(0) : yield* iArg(i)))); });
strM("lastIndexOf", (s, p) => s.lastIndexOf(p), function* (s, [p]) { const r = t.app("lastIndexOf", [S1(s), yield* sArg(p)], "Int"); return mkNum(t.toReal(r)); });
strM("slice", (s, a, b) => s.slice(a, b), function* (s, [a, b]) { const x = S1(s), n = t.strlen(x); const i = a === undefined ? t.int(0) : clamp(yield* iArg(a), n); const j = b === undefined ? n : clamp(yield* iArg(b), n); return mkStr(t.substr(x, i, t.isub(j, i))); });
strM("substring", (s, a, b) => s.substring(a, b), function* (s, [a, b]) { const x = S1(s), n = t.strlen(x); const nn = (q) => (q.op === "int" ? (q.data < 0 ? t.int(0) : clamp(q, n)) : t.ite(t.lt(q, t.int(0)), t.int(0), t.ite(t.le(q, n), q, n))); const i = nn(yield* iArg(a)); const j = b === undefined ? n : nn(yield* iArg(b)); return mkStr(t.ite(t.le(i, j), t.substr(x, i, t.isub(j, i)), t.substr(x, j, t.isub(i, j)))); });
strM("substr", (s, a, b) => s.substr(a, b), function* (s, [a, b]) { const x = S1(s), n = t.strlen(x); const i = clamp(yield* iArg(a), n); return mkStr(t.substr(x, i, b === undefined ? t.isub(n, i) : yield* iArg(b))); });
strM("charAt", (s, i) => s.charAt(i), function* (s, [i]) { return mkStr(t.substr(S1(s), yield* iArg(i), t.int(1))); });
strM("at", (s, i) => s.at(i), function* (s, [i]) { throw new Unsupported("String.at"); });
strM("charCodeAt", (s, i) => s.charCodeAt(i), function* (s, [i]) { return mkNum(t.toReal(t.app("charCode", [t.substr(S1(s), yield* iArg(i), t.int(1))], "Int"))); });
strM("codePointAt", (s, i) => s.codePointAt(i), function* (s, [i]) { return mkNum(t.toReal(t.app("charCode", [t.substr(S1(s), yield* iArg(i), t.int(1))], "Int"))); });
const LOWER = `(re.* (re.union (re.range "\\u{0}" "@") (re.range "[" "\\u{7f}")))`;
jsRegex.set(LOWER, /^[\x00-@\[-\x7f]*$/);
for (const n of ["toLowerCase", "toUpperCase", "trim", "trimStart", "trimEnd", "normalize"]) strM(n, (s) => s[n](), function* (s) { const x = S1(s); if (x.op === "app:str_" + n) return s; const r = t.app("str_" + n, [x], "String"); if (n.startsWith("to")) pushPc(t.eq(t.eq(x, t.str("")), t.eq(r, t.str("")))); if (n === "toLowerCase") pushPc(t.implies(t.inRe(x, t.reRaw(LOWER)), t.eq(r, x))); if (n === "trim") pushPc(t.implies(t.eq(x, t.str("")), t.eq(r, t.str("")))); return mkStr(r); });
strM("toString", (s) => s, function* (s) { return s; });
strM("valueOf", (s) => s, function* (s) { return s; });
strM("concat", (s, ...x) => s.concat(...x), function* (s, as) { let r = s; for (const a of as) r = strConcat(r, yield* toStr(a)); return r; });
strM("padStart", (s, n, c) => s.padStart(n, c), function* (s, [n, c]) {
  const x = S1(s);
  if (x.op === "app:hex" && n === 2 && c === "0" && known(t.and(t.ge(x.args[0], t.real(0)), t.lt(x.args[0], t.real(256)))) === true) { const h = t.app("hexByte", [x.args[0]], "String"); pushPc(t.inRe(h, t.reRaw(`((_ re.^ 2) (re.union (re.range "0" "9") (re.range "a" "f")))`))); return mkStr(h); }
  return mkStr(t.app("padStart", [S1(s), yield* iArg(n), S1(c ?? " ")], "String")); });
strM("padEnd", (s, n, c) => s.padEnd(n, c), function* (s, [n, c]) { return mkStr(t.app("padEnd", [S1(s), yield* iArg(n), S1(c ?? " ")], "String")); });
strM("repeat", (s, n) => s.repeat(n), function* (s, [n]) { return mkStr(t.app("str_repeat", [S1(s), yield* iArg(n)], "String")); });
strM("localeCompare", (s, x) => s.localeCompare(x), function* (s, [x]) { return mkNum(t.app("localeCompare", [S1(s), yield* sArg(x)], "Real")); });
// joins keep provenance so that split(join(xs)) can be related to xs
export const joinOf = new Map(); // term.id -> {rope, sep}
strM("split", (s, sep, lim) => (s.split(sep, lim)), function* (s, [sep, lim]) {
  if (sep instanceof JObj && sep.re) {
    if (!(s instanceof Sym)) { const r = s.split(new RegExp(sep.re.source, sep.re.flags), lim); return arrOf(r); }
    return newArr([srcSeg(ufSeq("splitre_" + sep.re.source, S1(s)))]);
  }
  const x = S1(s);
  const st = yield* sArg(sep);
  if (st.op === "str" && st.data === "") throw new Unsupported("split into chars");
  const jo = joinOf.get(x.id);
  if (jo && st === t.str(jo.sep)) {
    const r = yield* splitOfJoin(jo, x);
    if (r) return r;
  }
  if (st.op === "str" && st.data.length === 1) { // a concatenation whose unknown parts are free of the separator
    const parts = [[]]; let okp = true;
    for (const p of x.op === "str.++" ? x.args : [x]) {
      if (p.op === "str") { const q = p.data.split(st.data); parts[parts.length - 1].push(t.str(q[0])); for (const y of q.slice(1)) parts.push([t.str(y)]); }
      else if (known(t.not(t.contains(p, st)))) parts[parts.length - 1].push(p);
      else { okp = false; break; }
    }
    if (okp) { let vs = parts.map((ps) => fromTerm("str", ps.length === 1 ? ps[0] : t.concat(...ps))); if (typeof lim === "number") vs = vs.slice(0, lim); if (lim === undefined || typeof lim === "number") return arrOf(vs); }
  }
  const src = ufSeq("split_" + st.id, x);
  assume(t.ge(src.n, t.int(1)));
  if (st.op === "str") {
    // first element: prefix up to the first separator
    const e0 = t.acc("vs", t.app("elt0", [src.term, t.int(0)], "Val"));
    const has = t.contains(x, st);
    assume(t.eq(has, t.gt(src.n, t.int(1))));
    assume(t.implies(t.not(has), t.eq(e0, x)));
    assume(t.implies(has, t.eq(e0, t.substr(x, t.int(0), t.indexof(x, st, t.int(0))))));
  }
  if (typeof lim === "number") { const r = newArr([srcSeg(src)]); return newArr(ropeSlice(r.rope, t.int(0), t.ite(t.le(src.n, t.int(lim)), src.n, t.int(lim)))); }
  return newArr([srcSeg(src)]);
});
function badElem(v, sep) { // element is not a string free of the separator
  if (typeof v === "string") return t.bool(v.includes(sep));
  if (v instanceof Sym && v.sort === "str") return t.contains(v.term, t.str(sep));
  if (v instanceof Sym && v.sort === "any") return t.or(t.not(t.is("VS", v.term)), t.contains(t.acc("vs", v.term), t.str(sep)));
  if (v instanceof Union) return t.or(...v.alts.map((a) => t.and(a.g, badElem(a.v, sep))));
  return t.T;
}
function* splitOfJoin(jo, x) {
  // split(join(xs, sep), sep) = xs when xs is non-empty and no element contains sep
  const rope = normRope(jo.rope);
  const bad = newArr([]);
  let someBad = t.F;
  for (const s of rope) {
    if (s.t === "e") someBad = t.or(someBad, t.and(s.g, badElem(s.v, jo.sep)));
    else if (s.t === "c") {
      const items = s.items ?? [{ t: "e", g: t.T, v: srcElem(s.src, s.idx) }];
      for (const it of items) { if (it.t !== "e") return null; const { ex } = existsIdx(s.src, s.lo, s.hi, s.idx, t.and(it.g, badElem(it.v, jo.sep)), "any"); someBad = t.or(someBad, t.and(s.g, ex)); }
    } else if (s.t === "u") { const inner = yield* splitOfJoin({ rope: s.rope, sep: jo.sep }, x); if (!inner) return null; }
    else return null;
  }
  if (decide(someBad)) return null;
  if (decide(t.eq(ropeLen(rope), t.int(0)))) return arrOf([""]);
  return newArr(rope);
}
export function ufSeq(name, ...terms) { // an uninterpreted sequence-valued function of string terms
  const term = t.app("seq:" + name, terms, "Val");
  const s = arrSrc(term, { k: "str" });
  assume(t.ge(s.n, t.int(0)));
  return s;
}
const reOf = (r) => new RegExp(r.re.source, r.re.flags);
export function reTestTerm(x, re) {
  if (x.op === "str") return t.bool(new RegExp(re.source, re.flags.replace("g", "")).test(x.data));
  const l = searchLanguage(re.source, re.flags);
  if (l) { jsRegex.set(l, new RegExp(re.source, re.flags.replace(/[gy]/g, ""))); return t.inRe(x, t.reRaw(l)); }
  S.imprecise.v = S.imprecise.v ?? "regular expression outside the translated subset";
  return t.app("retest:" + re.source + "/" + re.flags, [x], "Bool");
}
hooks.reTest = (x, re) => reTestTerm(x, { source: re.source, flags: re.flags });
const reId = (re) => re.source + "/" + re.flags;
strM("match", (s, r) => s.match(r), function* (s, [r]) {
  if (!(r instanceof JObj)) throw new Unsupported("match string");
  if (!(s instanceof Sym)) {
    const m = s.match(reOf(r)); if (!m) return null;
    const a = arrOf([...m]); if (m.index !== undefined) a.store = storeSet(a.store, "index", m.index);
    if (m.groups) { const g = newObj(); for (const [k, v] of Object.entries(m.groups)) g.store = storeSet(g.store, k, v); a.store = storeSet(a.store, "groups", g); }
    return a;
  }
  const x = s.term, hit = reTestTerm(x, r.re);
  if (r.re.flags.includes("g")) {
    const src = ufSeq("matches:" + reId(r.re), x);
    assume(t.eq(hit, t.gt(src.n, t.int(0))));
    return iteValue(hit, newArr([srcSeg(src)]), null);
  }
  return matchGroups(x, r.re, hit);
});
function groupCount(src) { let n = 0; for (let i = 0; i < src.length; i++) { if (src[i] === "\\") { i++; continue; } if (src[i] === "[") { while (src[i] !== "]") { if (src[i] === "\\") i++; i++; } continue; } if (src[i] === "(" && (src[i + 1] !== "?" || (src[i + 2] === "<" && !"=!".includes(src[i + 3])))) n++; } return n; }
function matchGroups(x, re, hit) {
  const n = groupCount(re.source);
  const vals = [];
  for (let i = 0; i <= n; i++) {
    const g = t.app("group" + i + ":" + reId(re), [x], "String");
    const part = i === 0 ? t.F : t.app("gundef" + i + ":" + reId(re), [x], "Bool");
    vals.push(i === 0 ? mkStr(g) : hasOptionalGroup(re.source) ? iteValue(part, undefined, mkStr(g)) : mkStr(g));
  }
  const a = arrOf(vals);
  a.store = storeSet(a.store, "index", mkNum(t.toReal(t.app("mindex:" + reId(re), [x], "Int"))));
  return iteValue(hit, a, null);
}
const hasOptionalGroup = (s) => /\)[?*]|\|/.test(s);
strM("matchAll", (s, r) => { throw new Unsupported("matchAll"); }, function* (s, [r]) {
  if (!(s instanceof Sym)) { return arrOf([...s.matchAll(reOf(r))].map((m) => { const a = arrOf([...m]); a.store = storeSet(a.store, "index", m.index); return a; })); }
  throw new Unsupported("matchAll on symbolic string");
});
strM("search", (s, r) => s.search(r), function* (s, [r]) { throw new Unsupported("search"); });
// the text a regular expression without operators matches, or null
const literalRe = (re) => {
  if (/[^g]/.test(re.flags) || !re.source) return null;
  let out = "";
  for (let i = 0; i < re.source.length; i++) {
    const c = re.source[i];
    if (c === "\\") { const e = re.source[++i]; if (/[A-Za-z0-9]/.test(e)) return null; out += e; }
    else if (/[.*+?^${}()|[\]]/.test(c)) return null;
    else out += c;
  }
  return out;
};
const replaceImpl = (all) => function* (s, [p, r]) {
  if (p instanceof JObj && p.re) {
    if (!(s instanceof Sym) && !(r instanceof Sym)) {
      if (isFn(r)) {
        // evaluate callback for each match
        const re = reOf(p); let out = "", last = 0;
        for (const m of p.re.flags.includes("g") ? s.matchAll(re) : [s.match(re)].filter(Boolean)) {
          out = strConcat(out, s.slice(last, m.index));
          out = strConcat(out, yield* toStr(yield* call(r, undefined, [...m, m.index, s])));
          last = m.index + m[0].length;
        }
        return strConcat(out, s.slice(last));
      }
      return all || true ? (all ? s.replaceAll(reOf(p), r) : s.replace(reOf(p), r)) : s;
    }
    const lit = literalRe(p.re);
    if (lit !== null) return yield* replaceImpl(p.re.flags.includes("g"))(s, [lit, r]);
    if (isFn(r)) throw new Unsupported("regex replace with callback on symbolic string");
    const x = S1(s), y = yield* sArg(r);
    const hit = reTestTerm(x, p.re);
    // trailing-slash style anchors etc. stay uninterpreted but are the identity when nothing matches
    return mkStr(t.ite(hit, t.app("rereplace:" + reId(p.re), [x, y], "String"), x));
  }
  const x = S1(s), a = yield* sArg(p);
  if (isFn(r)) { const y = S1(split(yield* toStr(yield* call(r, undefined, [mkStr(a)])))); return mkStr(all ? t.replaceAllT(x, a, y) : t.replaceFirst(x, a, y)); }
  let y = yield* sArg(r);
  // '$' patterns in the replacement
  if (!(y.op === "str" && !y.data.includes("$"))) {
    const plain = t.not(t.contains(y, t.str("$")));
    const res = all ? t.replaceAllT(x, a, y) : t.replaceFirst(x, a, y);
    if (known(plain) === true) return mkStr(res);
    return mkStr(t.ite(plain, res, t.app("dollarReplace" + (all ? "A" : ""), [x, a, y], "String")));
  }
  return mkStr(all ? t.replaceAllT(x, a, y) : t.replaceFirst(x, a, y));
};
strM("replace", (s, a, b) => s.replace(a, b), replaceImpl(false));
strM("replaceAll", (s, a, b) => s.replaceAll(a, b), replaceImpl(true));
def(protos.String, "\uE000@iterator", function* (th) { const r = yield* iterToRope(th); const o = newObj(); o.iterRope = r; return o; });

// ---- RegExp
ctorFn("RegExp", function* (_, [s, f]) { return mkRegExp(s instanceof JObj ? s.re.source : reSrc(s), f ?? ""); }, function* ([s, f]) { return mkRegExp(s instanceof JObj ? s.re.source : reSrc(s), f ?? ""); });
const reSrc = (s) => { if (typeof s !== "string") throw new Unsupported("dynamic regex"); return s; };
def(protos.RegExp, "test", function* (th, [s]) {
  const x = yield* toStr(s);
  if (typeof x === "string" && !th.re.flags.includes("g") && !th.re.flags.includes("y")) return reOf(th).test(x);
  if (th.re.flags.includes("g") || th.re.flags.includes("y")) {
    if (typeof x === "string" && typeof lookup(th.store, "lastIndex").val === "number") { const r = reOf(th); r.lastIndex = lookup(th.store, "lastIndex").val; const res = r.test(x); set(th, "store", storeSet(th.store, "lastIndex", r.lastIndex)); return res; }
    throw new Unsupported("stateful regex test");
  }
  return mkBool(mapUTerm(x, (y) => reTestTerm(S1(y), th.re)));
});
def(protos.RegExp, "exec", function* (th, [s]) {
  const x = split(yield* toStr(s));
  if (typeof x === "string") {
    const r = reOf(th); r.lastIndex = lookup(th.store, "lastIndex").val; const m = r.exec(x);
    if (th.re.flags.includes("g")) set(th, "store", storeSet(th.store, "lastIndex", r.lastIndex));
    if (!m) return null;
    const a = arrOf([...m]); a.store = storeSet(a.store, "index", m.index); return a;
  }
  if (th.re.flags.includes("g")) throw new Unsupported("global exec on symbolic string");
  return matchGroups(x.term, th.re, reTestTerm(x.term, th.re));
});
defG(protos.RegExp, "source", function* (th) { return th.re.source; });
defG(protos.RegExp, "flags", function* (th) { return th.re.flags; });

// ---- Array
const ArrayC = ctorFn("Array", function* (_, as) { return as.length === 1 && typeof as[0] === "number" ? newArr(Array.from({ length: as[0] }, () => ({ t: "e", g: t.T, v: undefined }))) : newArr(flatArgs(as)); },
  function* (as) {
    if (as.length === 1 && sortOf(as[0]) === "num") {
      if (typeof as[0] === "number") return newArr(Array.from({ length: as[0] }, () => ({ t: "e", g: t.T, v: undefined })));
      const n = t.toInt(as[0].term); const src = { kind: "range", key: "range" + S.fresh.n, n }; set(S.fresh, "n", S.fresh.n + 1);
      return newArr([{ t: "c", g: t.T, src, lo: t.int(0), hi: n, idx: t.cst("i$" + src.key, "Int"), items: [{ t: "e", g: t.T, v: undefined }] }]);
    }
    return newArr(flatArgs(as));
  });
def(ArrayC, "isArray", function* (_, [v]) { return mkBool(mapUTerm(v, (x) => x instanceof JObj ? t.bool((x.proxy ? x.proxy.target : x).cls === "Array") : x instanceof Sym && x.sort === "any" ? t.is("VArr", x.term) : t.F)); });
def(ArrayC, "of", function* (_, as) { return newArr(flatArgs(as)); });
def(ArrayC, "from", function* (_, [v, f]) {
  v = narrow(v);
  if (v instanceof JObj && v.cls === "Uint8Array" && !v.u8 && v.bytes?.op) {
    // opaque bytes: only the byte-to-character mapping is understood
    if (f === undefined) throw new Unsupported("elements of opaque bytes");
    const b = freshTerm("byte", "Real");
    const r = yield* call(f, undefined, [mkNum(b), mkNum(freshTerm("bi", "Real"))]);
    if (!(r instanceof Sym) || r.term !== t.app("chr", [b], "String")) throw new Unsupported("mapping over opaque bytes");
    const a = newArr([srcSeg(ufSeq("chars", v.bytes))]); a.chars = { rope: a.rope, bytes: v.bytes }; return a;
  }
  let rope;
  if (v instanceof JObj && v.cls === "Object" && !v.iterRope && (yield* get(v, "\uE000@iterator")) === undefined) {
    const len = yield* toNum(yield* get(v, "length"));
    const a = yield* construct(ArrayC, [len === undefined ? 0 : len]); rope = a.rope;
  } else rope = yield* iterToRope(v);
  if (f === undefined) return newArr(rope);
  const out = newArr([]);
  yield* iterateRope(f.node ?? out, rope, function* (x, i) { const r = yield* call(f, undefined, [x, mkNum(t.toReal(i))]); set(out, "rope", [...out.rope, { t: "e", g: t.T, v: r }]); return OK; });
  return out;
});
const arrM = (n, f) => def(protos.Array, n, function* (th, as) { th = narrow(th); if (!(th instanceof JObj) || !th.rope) throw new Unsupported("array method on non-array"); return yield* f(th, as); });
arrM("push", function* (th, as) { set(th, "rope", [...th.rope, ...flatArgs(as)]); return mkNum(t.toReal(ropeLen(th.rope))); });
arrM("unshift", function* (th, as) { set(th, "rope", [...flatArgs(as), ...th.rope]); return mkNum(t.toReal(ropeLen(th.rope))); });
arrM("pop", function* (th) { const r = normRope(th.rope); if (!r.length) return undefined; const l = r[r.length - 1]; if (l.t === "e" && l.g === t.T) { set(th, "rope", r.slice(0, -1)); return l.v; } 
  const n = ropeLen(r); if (decide(t.eq(n, t.int(0)))) return undefined; const i = t.isub(n, t.int(1)); const v = ropeAt(r, i); set(th, "rope", ropeSlice(r, t.int(0), i)); return v; });
arrM("shift", function* (th) { const r = normRope(th.rope); if (!r.length) return undefined; const l = r[0]; if (l.t === "e" && l.g === t.T) { set(th, "rope", r.slice(1)); return l.v; }
  const n = ropeLen(r); if (decide(t.eq(n, t.int(0)))) return undefined; const v = ropeAt(r, t.int(0)); set(th, "rope", ropeSlice(r, t.int(1), n)); return v; });
const relIdx = function* (v, n, d) { if (v === undefined) return d; return clamp(yield* iArg(v), n); };
arrM("slice", function* (th, [a, b]) { const r = normRope(th.rope); const n = ropeLen(r); const i = yield* relIdx(a, n, t.int(0)); const j = yield* relIdx(b, n, n); if (isConcreteRope(r) && i.op === "int" && j.op === "int") return newArr(r.slice(i.data, j.data)); if (i === t.int(0) && j === n) return newArr(r); return newArr(ropeSlice(r, i, j)); });
arrM("splice", function* (th, [a, dc, ...ins]) {
  const r = normRope(th.rope); const n = ropeLen(r);
  const i = clamp(yield* iArg(a), n);
  let cnt = dc === undefined ? t.isub(n, i) : yield* iArg(dc);
  if (isConcreteRope(r) && i.op === "int" && cnt.op === "int") { const c = r.slice(); const del = c.splice(i.data, cnt.data, ...flatArgs(ins)); set(th, "rope", c); return newArr(del); }
  const avail = t.isub(n, i);
  const le = t.le(cnt, avail);
  const k = decide(le) ? cnt : avail; // case split keeps the pieces simple
  const j = t.iadd(i, k);
  const del = ropeSlice(r, i, j);
  set(th, "rope", normRope([...ropeSlice(r, t.int(0), i), ...flatArgs(ins), ...ropeSlice(r, j, n)]));
  return newArr(del);
});
arrM("concat", function* (th, as) { const out = [...th.rope]; for (const a of as) { if (a instanceof JObj && a.cls === "Array") out.push(...a.rope); else if (a instanceof Union || (a instanceof Sym && a.sort === "any")) { const x = narrow(a); if (x instanceof JObj && x.cls === "Array") out.push(...x.rope); else out.push({ t: "e", g: t.T, v: x }); } else out.push({ t: "e", g: t.T, v: a }); } return newArr(out); });
arrM("forEach", function* (th, [f, ta]) { yield* iterateRope(f, th.rope, function* (x, i) { yield* call(f, ta, [x, mkNum(t.toReal(i)), th]); return OK; }); return undefined; });
const pushTo = (out, v) => set(out, "rope", [...out.rope, { t: "e", g: t.T, v }]);
arrM("map", function* (th, [f, ta]) { const out = newArr([]); yield* iterateRope(f, th.rope, function* (x, i) { pushTo(out, yield* call(f, ta, [x, mkNum(t.toReal(i)), th])); return OK; }); return out; });
arrM("flatMap", function* (th, [f, ta]) { const out = newArr([]); yield* iterateRope(f, th.rope, function* (x, i) { const r = narrow(yield* call(f, ta, [x, mkNum(t.toReal(i)), th])); if (r instanceof JObj && r.cls === "Array") set(out, "rope", [...out.rope, ...r.rope]); else pushTo(out, r); return OK; }); return out; });
arrM("flat", function* (th) { const out = newArr([]); yield* iterateRope(th, th.rope, function* (x) { const r = narrow(x); if (r instanceof JObj && r.cls === "Array") set(out, "rope", [...out.rope, ...r.rope]); else pushTo(out, r); return OK; }); return out; });
arrM("filter", function* (th, [f, ta]) {
  const out = newArr([]);
  yield* iterateRope(f, th.rope, function* (x, i) {
    const c = truthy(yield* call(f, ta, [x, mkNum(t.toReal(i)), th]));
    if (c !== t.F) set(out, "rope", [...out.rope, { t: "e", g: c, v: x }]);
    return OK;
  });
  return out;
});
const quantM = (n, stopOn) => arrM(n, function* (th, [f, ta]) {
  const c = yield* iterateRope(f, th.rope, function* (x, i) {
    const b = truthy(yield* call(f, ta, [x, mkNum(t.toReal(i)), th]));
    if (decide(stopOn ? b : t.not(b))) return { k: "return", v: stopOn };
    return OK;
  });
  return c.k === "return" ? stopOn : !stopOn;
});
const wrapRegion = (n) => { const e = protos.Array.store.ents.find((x) => x.k === n); const f = e.v.native; e.v.native = function* (th, as) { return (yield* region(e.v, function* () { return { k: "ok", v: yield* f(th, as) }; })).v; }; };
quantM("some", true); quantM("every", false); wrapRegion("some"); wrapRegion("every");
arrM("find", function* (th, [f, ta]) {
  let found;
  const c = yield* iterateRope(f, th.rope, function* (x, i) { if (decide(truthy(yield* call(f, ta, [x, mkNum(t.toReal(i)), th])))) return { k: "return", v: x }; return OK; });
  return c.k === "return" ? c.v : undefined;
}); wrapRegion("find");
arrM("findIndex", function* (th, [f, ta]) { const c = yield* iterateRope(f, th.rope, function* (x, i) { if (decide(truthy(yield* call(f, ta, [x, mkNum(t.toReal(i)), th])))) return { k: "return", v: mkNum(t.toReal(i)) }; return OK; }); return c.k === "return" ? c.v : -1; }); wrapRegion("findIndex");
arrM("findLast", function* (th, [f, ta]) { const r = normRope(th.rope); if (!isConcreteRope(r)) throw new Unsupported("findLast"); for (const s of r.slice().reverse()) if (decide(truthy(yield* call(f, ta, [s.v])))) return s.v; return undefined; });
export function ropeContains(rope, v) {
  let g = t.F;
  for (const s of normRope(rope)) {
    if (s.t === "e") g = t.or(g, t.and(s.g, strictEq(s.v, v)));
    else if (s.t === "u") g = t.or(g, t.and(s.g, ropeContains(s.rope, v)));
    else {
      const items = s.items ?? [{ t: "e", g: t.T, v: srcElem(s.src, s.idx) }];
      let body = t.F;
      for (const it of items) { if (it.t !== "e") throw new Unsupported("contains in nested comprehension"); body = t.or(body, t.and(it.g, strictEq(it.v, v))); }
      g = t.or(g, t.and(s.g, existsIdx(s.src, s.lo, s.hi, s.idx, body, "any").ex));
    }
  }
  return g;
}
arrM("includes", function* (th, [v]) { return mkBool(ropeContains(th.rope, v)); });
arrM("indexOf", function* (th, [v]) { const r = normRope(th.rope); if (!isConcreteRope(r)) throw new Unsupported("indexOf on symbolic sequence"); let res = -1; for (let i = r.length - 1; i >= 0; i--) res = iteValue(strictEq(r[i].v, v), i, res); return res; });
arrM("reverse", function* (th) { const r = normRope(th.rope); if (!r.every((s) => s.t === "e")) throw new Unsupported("reverse symbolic"); set(th, "rope", r.slice().reverse()); return th; });
arrM("sort", function* (th, [f]) {
  const r = normRope(th.rope); if (!isConcreteRope(r)) throw new Unsupported("sort symbolic");
  const vs = concreteVals(r);
  if (f === undefined && !vs.every((v) => ["string", "number", "boolean"].includes(typeof v))) throw new Unsupported("default sort of symbolic values");
  const out = [];
  for (const v of vs) { let j = out.length; while (j > 0) { const c = f === undefined ? ((String(out[j - 1]) > String(v)) ? 1 : 0) : yield* call(f, undefined, [out[j - 1], v]); if (decide(truthy(yield* I.compare(">", c, 0)))) j--; else break; } out.splice(j, 0, v); }
  set(th, "rope", out.map((v) => ({ t: "e", g: t.T, v }))); return th;
});
arrM("reduce", function* (th, as) {
  const cell = new I.Cell(as[1]);
  const f = as[0];
  let rope = normRope(th.rope);
  if (as.length < 2) { if (!rope.length) throwErr("TypeError", "Reduce of empty array with no initial value"); if (rope[0].t !== "e" || rope[0].g !== t.T) throw new Unsupported("reduce without initial value on symbolic sequence"); cell.v = rope[0].v; rope = rope.slice(1); }
  yield* iterateRope(f, rope, function* (x, i) { set(cell, "v", yield* call(f, undefined, [cell.v, x, mkNum(t.toReal(i)), th])); return OK; });
  return cell.v;
});
arrM("join", function* (th, [sep]) {
  if (th.chars && th.chars.rope === th.rope && sep === "") return mkStr(t.app("bin", [th.chars.bytes], "String"));
  return yield* joinRope(th.rope, sep === undefined ? "," : sep); });
function* joinRope(rope, sep) {
  rope = normRope(rope);
  if (isConcreteRope(rope)) {
    let out = ""; let first = true;
    for (const v of concreteVals(rope)) { if (!first) out = strConcat(out, sep); first = false; out = strConcat(out, v === undefined || v === null ? "" : yield* toStr(v)); }
    if (out instanceof Sym && typeof sep === "string" && rope.every((s) => sortOf(s.v) === "str")) joinOf.set(out.term.id, { rope, sep });
    return out;
  }
  const id = canonRope(rope);
  const nm = "join$" + id + "$" + canonStrToId(typeof sep === "string" ? sep : "?" + sep.term.id);
  const ix = S.idxStack.filter((x) => valueMentions(newArr(rope), new Map([[x, x]])));
  const term = ix.length ? t.app(nm, ix, "String") : t.cst(nm, "String");
  joinOf.set(term.id, { rope, sep });
  const n = ropeLen(rope);
  pushPc(t.implies(t.eq(n, t.int(0)), t.eq(term, t.str(""))));
  return mkStr(term);
}
hooksI.arrayJoin = function* (a, sep) { return yield* joinRope(a.rope, sep); };
arrM("at", function* (th, [i]) { const k = yield* iArg(i); if (k.op === "int" && k.data < 0) { const n = ropeLen(th.rope); return ropeAt(th.rope, t.iadd(n, k)); } return ropeAt(th.rope, k); });
arrM("fill", function* (th, [v]) { const r = normRope(th.rope); set(th, "rope", r.map((s) => (s.t === "e" ? { ...s, v } : { ...s, items: [{ t: "e", g: t.T, v }] }))); return th; });
arrM("entries", function* (th) { const out = newArr([]); yield* iterateRope(th, th.rope, function* (x, i) { pushTo(out, arrOf([mkNum(t.toReal(i)), x])); return OK; }); return out; });
arrM("keys", function* (th) { const out = newArr([]); yield* iterateRope(th, th.rope, function* (x, i) { pushTo(out, mkNum(t.toReal(i))); return OK; }); return out; });
arrM("values", function* (th) { return newArr(th.rope); });
arrM("\uE000@iterator", function* (th) { const o = newObj(); o.iterRope = th.rope; return o; });
arrM("toString", function* (th) { return yield* joinRope(th.rope, ","); });

// ---- Map / Set
const mapKey = (m, v) => {
  v = v instanceof Union ? split(v) : v;
  if (v instanceof Sym && v.sort === "any") v = narrow(v);
  if (typeof v === "string") return v;
  if (v instanceof Sym && v.sort === "str") return v.term;
  const k = v instanceof JObj ? "\u0000o" + v.id : v instanceof JSymbol ? "\u0000s" + v.key : v instanceof Sym ? null : "\u0000p" + typeof v + String(v);
  if (k === null) throw new Unsupported("map key of symbolic " + v.sort);
  if (v instanceof JObj && v.symTerm && !m.objKeys) { /* identity by term */ }
  m.keyVals.set(k, v);
  return k;
};
function newMap(cls = "Map") { const m = new JObj(cls, protos[cls]); m.mstore = emptyStore; m.keyVals = new Map(); return m; }
const mapCtor = (cls) => ctorFn(cls, function* () { throwErr("TypeError", "Constructor requires new"); }, function* ([it], nt) {
  const m = newMap(cls); if (nt && nt.protoObj) m.proto = nt.protoObj;
  if (it !== undefined && it !== null) { const r = yield* iterToRopeU(it); yield* iterateRope(m, r, function* (p) { set(m, "mstore", storeSet(m.mstore, mapKey(m, yield* getV(p, 0)), yield* getV(p, 1))); return OK; }); }
  return m;
});
mapCtor("Map"); mapCtor("WeakMap");
for (const cls of ["Map", "WeakMap"]) {
  const P = protos[cls];
  def(P, "get", function* (th, [k]) { return lookup(th.mstore, mapKey(th, k)).val; });
  def(P, "has", function* (th, [k]) { return mkBool(lookup(th.mstore, mapKey(th, k)).has); });
  def(P, "set", function* (th, [k, v]) { set(th, "mstore", storeSet(th.mstore, mapKey(th, k), v)); return th; });
  def(P, "delete", function* (th, [k]) { const kk = mapKey(th, k); const h = lookup(th.mstore, kk).has; set(th, "mstore", storeDel(th.mstore, kk)); return mkBool(h); });
  def(P, "clear", function* (th) { set(th, "mstore", emptyStore); });
}
defG(protos.Map, "size", function* (th) { return mkNum(t.toReal(ropeLen(entriesRope(th.mstore)))); });
def(protos.Map, "keys", function* (th) { return newArr(mapEntriesRope(th).map(keySeg)); });
def(protos.Map, "values", function* (th) { return newArr(mapEntriesRope(th).map(valSeg)); });
def(protos.Map, "entries", function* (th) { return newArr(mapEntriesRope(th).map(pairSeg)); });
def(protos.Map, "\uE000@iterator", function* (th) { const o = newObj(); o.iterRope = mapEntriesRope(th).map(pairSeg); return o; });
def(protos.Map, "forEach", function* (th, [f]) { yield* iterateRope(f, mapEntriesRope(th).map(pairSeg), function* (p) { yield* call(f, undefined, [yield* getV(p, 1), yield* getV(p, 0), th]); return OK; }); });
// Set: rope of appended elements (semantically de-duplicated)
const setCtor = (cls) => ctorFn(cls, function* () { throwErr("TypeError", "Constructor requires new"); }, function* ([it]) {
  const s = new JObj("Set", protos[cls]); s.rope = [];
  if (it !== undefined && it !== null) { const r = yield* iterToRopeU(it); s.rope = dedupe(r); }
  return s;
});
function dedupe(r) { return isConcreteRope(r) && r.every((e) => !(e.v instanceof Sym) && !(e.v instanceof Union)) ? I.simplifyUniq({ rope: r }) : r; }
setCtor("Set"); setCtor("WeakSet"); protos.WeakSet.proto = protos.Set;
def(protos.Set, "add", function* (th, [v]) {
  const has = ropeContains(th.rope, v);
  if (has === t.T) return th;
  set(th, "rope", [...th.rope, { t: "e", g: has === t.F || th.rope.length === 0 ? t.T : t.T, v }]);
  return th;
});
def(protos.Set, "has", function* (th, [v]) { return mkBool(ropeContains(th.rope, v)); });
def(protos.Set, "delete", function* (th, [v]) {
  const has = ropeContains(th.rope, v);
  set(th, "rope", th.rope.flatMap((s) => { if (s.t === "e") { const g = t.and(s.g, t.not(strictEq(s.v, v))); return g === t.F ? [] : [{ ...s, g }]; } const items = s.items ?? [{ t: "e", g: t.T, v: srcElem(s.src, s.idx) }]; return [{ ...s, items: items.map((it) => ({ ...it, g: t.and(it.g, t.not(strictEq(it.v, v))) })) }]; }));
  return mkBool(has);
});
def(protos.Set, "clear", function* (th) { set(th, "rope", []); });
const setRope = (th) => I.simplifyUniq({ t: "u", g: t.T, rope: th.rope });
defG(protos.Set, "size", function* (th) { return mkNum(t.toReal(ropeLen(setRope(th)))); });
for (const n of ["values", "keys"]) def(protos.Set, n, function* (th) { return newArr(setRope(th)); });
def(protos.Set, "\uE000@iterator", function* (th) { const o = newObj(); o.iterRope = setRope(th); return o; });
def(protos.Set, "forEach", function* (th, [f]) { yield* iterateRope(f, setRope(th), function* (x) { yield* call(f, undefined, [x, x, th]); return OK; }); });

// ---- Promise
const PromiseC = ctorFn("Promise", function* () { throwErr("TypeError", "Promise constructor requires new"); }, function* ([ex]) {
  const p = newPromise();
  const res = native("resolve", function* (_, [v]) { if (!p.locked) { set(p, "locked", true); yield* resolvePromise(p, v); } });
  const rej = native("reject", function* (_, [v]) { if (!p.locked) { set(p, "locked", true); settle(p, "rejected", v); } });
  try { yield* call(ex, undefined, [res, rej]); } catch (e) { if (e instanceof JSThrow) settle(p, "rejected", e.value); else throw e; }
  return p;
});
export function* promiseThen(p, onF, onR) {
  const q = newPromise();
  const mk = (f, pass) => function* (v) {
    if (!isFn(f)) { if (pass === "f") yield* resolvePromise(q, v); else settle(q, "rejected", v); return; }
    try { const r = yield* call(f, undefined, [v]); yield* resolvePromise(q, r); } catch (e) { if (e instanceof JSThrow) settle(q, "rejected", e.value); else throw e; }
  };
  then(p, mk(onF, "f"), mk(onR, "r"));
  return q;
}
def(protos.Promise, "then", function* (th, [a, b]) { return yield* promiseThen(th, a, b); });
def(protos.Promise, "catch", function* (th, [b]) { return yield* promiseThen(th, undefined, b); });
def(protos.Promise, "finally", function* (th, [f]) {
  const q = newPromise();
  then(th, function* (v) { try { const r = yield* toPromise(yield* call(f, undefined, [])); then(r, function* () { settle(q, "fulfilled", v); }, function* (e) { settle(q, "rejected", e); }); } catch (e) { if (e instanceof JSThrow) settle(q, "rejected", e.value); else throw e; } },
    function* (v) { try { const r = yield* toPromise(yield* call(f, undefined, [])); then(r, function* () { settle(q, "rejected", v); }, function* (e) { settle(q, "rejected", e); }); } catch (e) { if (e instanceof JSThrow) settle(q, "rejected", e.value); else throw e; } });
  return q;
});
def(PromiseC, "resolve", function* (_, [v]) { return yield* toPromise(v); });
def(PromiseC, "reject", function* (_, [v]) { const p = newPromise(); settle(p, "rejected", v); return p; });
const comb2 = (mode) => function* (_, [it]) {
  const rope = normRope(yield* iterToRope(it));
  const q = newPromise();
  if (!isConcreteRope(rope)) return yield* symAll(mode, rope, q);
  const vs = concreteVals(rope);
  const out = new Array(vs.length); const cell = { n: vs.length };
  const resArr = arrOf(vs.map(() => undefined));
  const put1 = (i, v) => { const r = resArr.rope.slice(); r[i] = { t: "e", g: t.T, v }; set(resArr, "rope", r); };
  const done = function* () { set(cell, "n", cell.n - 1); if (cell.n === 0) settle(q, "fulfilled", resArr); };
  if (!vs.length) { if (mode !== "race") settle(q, "fulfilled", resArr); return q; }
  for (let i = 0; i < vs.length; i++) {
    const p = yield* toPromise(vs[i]);
    then(p, function* (v) {
      if (mode === "race") return settle(q, "fulfilled", v);
      if (mode === "allSettled") { const o = newObj(); o.store = storeSet(storeSet(emptyStore, "status", "fulfilled"), "value", v); put1(i, o); } else put1(i, v);
      yield* done();
    }, function* (e) {
      if (mode === "allSettled") { const o = newObj(); o.store = storeSet(storeSet(emptyStore, "status", "rejected"), "reason", e); put1(i, o); yield* done(); } else settle(q, "rejected", e);
    });
  }
  return q;
};
// symbolic sequence of already-settled promises (comprehension of settled results)
function* symAll(mode, rope, q) {
  const out = newArr([]); const roots = new Set();
  const c = yield* iterateRope(out, rope, function* (p) {
    p = narrow(p);
    if (p instanceof JObj && p.cls === "Promise") {
      if (p.proto !== protos.Promise) throw new Unsupported("promise subclass in an unknown sequence");
      if (p.root) roots.add(p.root); else if (!p.ix && !p.handled) throw new Unsupported("Promise combinator over an unknown sequence of shared promises");
      if (p.state === "pending") throw new Unsupported("Promise.all over symbolic pending promises");
      if (mode === "allSettled") { const o = newObj(); o.store = p.state === "fulfilled" ? storeSet(storeSet(emptyStore, "status", "fulfilled"), "value", p.value) : storeSet(storeSet(emptyStore, "status", "rejected"), "reason", p.value); pushTo(out, o); return OK; }
      if (p.state === "rejected") return { k: "return", v: p.value };
      pushTo(out, p.value); return OK;
    }
    if (mode === "allSettled") { const o = newObj(); o.store = storeSet(storeSet(emptyStore, "status", "fulfilled"), "value", p); pushTo(out, o); } else pushTo(out, p);
    return OK;
  });
  for (const r of roots) set(r, "handled", true);
  if (c.k === "return") settle(q, "rejected", c.v); else settle(q, "fulfilled", out);
  return q;
}
def(PromiseC, "all", comb2("all")); def(PromiseC, "allSettled", comb2("allSettled")); def(PromiseC, "race", comb2("race"));

// ---- JSON
const JSONO = newObj(); glob("JSON", JSONO);
export function toHost(v, depth = 0) { // concrete deep conversion; throws Unsupported when symbolic
  if (depth > 50) throw new Unsupported("deep");
  if (v instanceof Sym || v instanceof Union) throw new Unsupported("symbolic in toHost");
  if (!(v instanceof JObj)) return v;
  if (v.cls === "Function") return undefined;
  if (v.cls === "Array") { const r = normRope(v.rope); if (!isConcreteRope(r)) throw new Unsupported("symbolic array"); return concreteVals(r).map((x) => toHost(x, depth + 1)); }
  if (v.cls === "Date") { if (v.date.t instanceof Sym) throw new Unsupported("symbolic date"); return new Date(v.date.t); }
  if (v.cls === "Map" || v.cls === "Set") return {};
  if (v.store.base) throw new Unsupported("symbolic object");
  const o = {};
  for (const e of v.store.ents) { if (e.hidden) continue; if (e.ov || e.bulk || e.opaque || e.g !== t.T || typeof e.k !== "string" || e.del) throw new Unsupported("symbolic store"); if (!e.k.startsWith("\uE000@")) o[e.k] = toHost(e.v, depth + 1); }
  return o;
}
export function fromHost(v) {
  if (v === null || typeof v !== "object") return v;
  if (Array.isArray(v)) return arrOf(v.map(fromHost));
  if (v instanceof Date) { const d = new JObj("Date", protos.Date); d.date = { t: v.getTime() }; return d; }
  const o = newObj(); for (const [k, x] of Object.entries(v)) o.store = storeSet(o.store, k, fromHost(x)); return o;
}
const jsonSafeType = (ty) => !ty || ty.k === "any" ? false : ty.k === "obj" ? !ty.open && Object.values(ty.props).every(jsonSafeType) : ty.k === "arr" || ty.k === "dict" ? jsonSafeType(ty.of) : ty.k === "union" ? ty.of.every(jsonSafeType) : true;
function containsAny(v, seen = new Set()) {
  if (v instanceof Sym) return v.sort === "any";
  if (v instanceof Union) return v.alts.some((a) => containsAny(a.v, seen));
  if (v instanceof JObj) {
    if (seen.has(v)) return false; seen.add(v);
    if (v.symTerm) return !jsonSafeType(v.symType);
    if (v.cls === "Array") return v.rope.some((s) => segAny(s, seen));
    if (v.cls === "Object") return (v.store.base && !jsonSafeType(v.store.base.type)) || v.store.ents.some((e) => e.hidden ? false : e.bulk ? e.bulk.items.some((i) => containsAny(i.v, seen)) : e.ov ? true : containsAny(e.v, seen));
  }
  return false;
}
const segAny = (s, seen) => s.t === "e" ? containsAny(s.v, seen) : s.t === "c" ? (s.items ? s.items.some((i) => segAny(i, seen)) : !jsonSafeType(s.src.elemType)) : s.t === "u" ? s.rope.some((x) => segAny(x, seen)) : true;
const jsonSrc = new Map(); // JSON text term -> copy of the value it was made from (null when not representable)
function jsonCopy(v) {
  const NO = {};
  const go = (x) => {
    if (x instanceof Union) { if (x.alts.some((a) => a.v === undefined || a.v instanceof JObj)) throw NO; return x; }
    if (x instanceof Sym) { if (x.sort === "any") throw NO; return x; }
    if (!(x instanceof JObj)) { if (x === undefined) throw NO; if (typeof x === "number" && !Number.isFinite(x)) return null; return x; }
    if (x.symTerm || x.proxy) throw NO;
    if (x.cls === "Array") { if (!isConcreteRope(x.rope)) throw NO; return arrOf(concreteVals(x.rope).map((y) => (y === undefined ? null : go(y)))); }
    if (x.cls !== "Object" || x.store.base || x.store.ents.some((e) => e.ov || e.bulk || e.opaque || typeof e.k !== "string" || (e.g && e.g !== t.T))) throw NO;
    const o = newObj();
    for (const e of x.store.ents) { if (e.hidden || e.v === undefined || (e.v instanceof JObj && e.v.cls === "Function")) continue; if (e.acc || e.del) throw NO; o.store = storeSet(o.store, e.k, go(e.v)); }
    return o;
  };
  try { return go(v); } catch (e) { if (e === NO) return null; throw e; }
}
export function* jsonStringify(v, extra = "") {
  if (v instanceof Union) {
    if (v.alts.some((a) => a.v instanceof JObj || (a.v instanceof Sym && a.v.sort === "any"))) return (yield* region(JSONO, function* () { return { k: "ok", v: yield* jsonStringify(split(v), extra) }; })).v;
    const out = []; for (const a of v.alts) out.push({ g: a.g, v: yield* jsonStringify(a.v, extra) }); return mergeValues(out);
  }
  if (v === undefined) return undefined;
  if (v instanceof Sym) {
    if (v.sort === "bool") return mkStr(t.ite(v.term, t.str("true"), t.str("false")));
    const x = toVal(v);
    if (v.sort === "any") {
      const thr = t.and(t.or(t.is("VObj", x), t.is("VArr", x)), t.app("jsonThrows", [x], "Bool"));
      if (decide(thr)) throwErr("TypeError", "Converting circular structure to JSON");
      return iteValue(t.or(t.is("VUndef", x), t.is("VFun", x)), undefined, mkStr(t.app("json" + extra, [x], "String")));
    }
    return mkStr(t.app("json" + extra, [x], "String"));
  }
  if (v instanceof JObj) {
    if (v.cls === "Function") return undefined;
    if (v.proxy) return yield* jsonStringify(v.proxy.target, extra);
    if (!v.symTerm) {
      const tj = v.cls === "Array" ? undefined : yield* get(v, "toJSON");
      if (isFn(tj)) return yield* jsonStringify(yield* call(tj, v, [""]), extra);
      const w = yield* jsonPrep(v, 0);
      try { return JSON.stringify(toHost(w)); } catch (e) { if (!(e instanceof Unsupported)) { if (e instanceof TypeError) throwErr("TypeError", e.message); throw e; } }
      v = w;
    }
    if (v.symTerm && (v.cls === "Array" ? isPureInput(v) : v.store.ents.length === 0)) {
      if (!jsonSafeType(v.symType)) { const thr = t.app("jsonThrows", [v.symTerm], "Bool"); if (decide(thr)) throwErr("TypeError", "Converting circular structure to JSON"); }
      return mkStr(t.app("json" + extra, [v.symTerm], "String"));
    }
    const id = canonStrToId("J" + canonValue(v));
    const ix = S.idxStack.filter((x) => valueMentions(v, new Map([[x, x]])));
    const mkt = (n, s) => (ix.length ? t.app(n + id, ix, s) : t.cst(n + id, s));
    if (containsAny(v)) { if (decide(mkt("jsonThrowsC$", "Bool"))) throwErr("TypeError", "Converting circular structure to JSON"); }
    const jt = mkt("jsonC$" + extra, "String");
    if (!extra && !ix.length && !jsonSrc.has(jt.id)) jsonSrc.set(jt.id, jsonCopy(v));
    return mkStr(jt);
  }
  if (typeof v === "bigint") throwErr("TypeError", "Do not know how to serialize a BigInt");
  return JSON.stringify(v);
}
function* jsonPrep(v, d) { // apply toJSON inside concrete structure
  if (!(v instanceof JObj) || v.symTerm || d > 8) return v;
  if (v.cls === "Date") return v;
  if (v.cls === "Array") { if (!isConcreteRope(v.rope)) return v; const out = []; let ch = false; for (const s of v.rope) { const w = yield* jsonPrep1(s.v, d); if (w !== s.v) ch = true; out.push({ ...s, v: w }); } return ch ? newArr(out) : v; }
  if (v.cls === "Object" || v.cls === "Error") {
    if (v.store.base || v.store.ents.some((e) => e.ov || e.bulk || e.opaque)) return v;
    let ch = false; const ents = [];
    for (const e of v.store.ents) { if (e.hidden) { if (e.acc) ch = true; continue; } const w = yield* jsonPrep1(e.v, d); if (w !== e.v) ch = true; ents.push({ ...e, v: w }); }
    if (!ch && v.cls === "Object") return v;
    const o = newObj(); o.store = { base: null, ents }; return o;
  }
  return v;
}
function* jsonPrep1(v, d) { if (v instanceof JObj && !v.symTerm && v.cls !== "Array" && v.cls !== "Function" && v.cls !== "Date") { const tj = yield* get(v, "toJSON"); if (isFn(tj)) return yield* jsonPrep(yield* call(tj, v, [""]), d + 1); } return yield* jsonPrep(v, d + 1); }
def(JSONO, "stringify", function* (_, [v, rep, ind]) {
  if (rep !== undefined && rep !== null) throw new Unsupported("JSON.stringify replacer");
  if (ind !== undefined) { try { return JSON.stringify(toHost(yield* jsonPrep(v, 0)), null, ind); } catch (e) { if (!(e instanceof Unsupported)) throw e; } return yield* jsonStringify(v, "_ind" + ind); }
  return yield* jsonStringify(v);
});
def(JSONO, "parse", function* (_, [s]) {
  const x = split(yield* toStr(s));
  if (typeof x === "string") { let h; try { h = JSON.parse(x); } catch (e) { throwErr("SyntaxError", e.message); } return fromHost(h); }
  if (x.term.op === "app:json") return fromTerm("any", x.term.args[0]);
  if (jsonSrc.has(x.term.id)) { const c = jsonSrc.get(x.term.id); const cl = c && jsonCopy(c); if (cl) return cl; throw new Unsupported("parsing back this JSON text"); }
  const thr = t.app("jsonParseFails", [x.term], "Bool");
  if (decide(thr)) throwErr("SyntaxError", "Unexpected token in JSON");
  const r = t.app("jsonParse", [x.term], "Val");
  assume(t.not(t.or(t.is("VUndef", r), t.is("VFun", r))));
  return mkAny(r);
});

// ---- Date (time is a model variable)
S.clock = { v: null };
export function now() { if (S.clock.v === null && S.unit?.clock) set(S.clock, "v", S.unit.clock); if (S.clock.v === null) { const x = freshTerm("now", "Real"); assume(t.and(t.isInt(x), t.gt(x, t.real(1e12)), t.lt(x, t.real(4e12)))); set(S.clock, "v", mkNum(x)); } return S.clock.v; }
S.clock.hostMerge = () => undefined;
const mkDate = (tv) => { const d = new JObj("Date", protos.Date); d.date = { t: tv }; return d; };
const DateC = ctorFn("Date", function* () { throw new Unsupported("Date()"); }, function* (as) {
  if (!as.length) return mkDate(now());
  let a = narrow(as[0]);
  if (a instanceof JObj && a.date) return mkDate(a.date.t);
  if (as.length > 1) { if (!as.every((x) => typeof x === "number")) throw new Unsupported("new Date of parts"); return mkDate(new Date(...as).getTime()); }
  if (typeof a === "string") return mkDate(new Date(a).getTime());
  if (sortOf(a) === "num") return mkDate(a);
  if (a instanceof Sym && a.sort === "str") { const ok = t.app("dateOk", [a.term], "Bool"); return mkDate(iteValue(ok, mkNum(t.app("dateParse", [a.term], "Real")), NaN)); }
  throw new Unsupported("new Date of " + sortOf(a));
});
def(DateC, "now", function* () { return now(); });
def(DateC, "parse", function* (_, [s]) { const d = yield* construct(DateC, [s]); return d.date.t; });
def(protos.Date, "getTime", function* (th) { return th.date ? th.date.t : mkNum(t.app("dateTime", [th.symTerm], "Real")); });
def(protos.Date, "valueOf", function* (th) { return th.date.t; });
def(protos.Date, "toISOString", function* (th) { const x = th.date.t; if (typeof x === "number") { if (Number.isNaN(x)) throwErr("RangeError", "Invalid time value"); return new Date(x).toISOString(); } return mapU(x, (y) => typeof y === "number" ? new Date(y).toISOString() : mkStr(t.app("iso", [y.term], "String"))); });
def(protos.Date, "toJSON", function* (th) { const f = yield* get(th, "toISOString"); return yield* call(f, th, []); });
for (const n of ["toUTCString", "toString", "toDateString", "toLocaleString", "toTimeString"]) def(protos.Date, n, function* (th) { const x = th.date.t; if (typeof x === "number") return new Date(x)[n](); throw new Unsupported("Date." + n); });

// ---- globals
const gthis = newObj(); glob("globalThis", gthis);
gthis.exotic = { get: (k) => { const c = G.vars.get(k); if (!c) return null; return { has: t.T, val: c.lazy ? c.lazy() : c.v }; }, put: (k, v) => { const c = G.vars.get(k); if (!c || c.lazy) return false; set(c, "v", v); return true; } };
glob("fetch", undefined);
const consoleO = newObj(); glob("console", consoleO);
for (const n of ["log", "error", "warn", "info", "debug", "trace"]) def(consoleO, n, function* () {});
glob("structuredClone", native("structuredClone", function* (_, [v]) { return fromHost(toHost(v)); }));
glob("queueMicrotask", native("queueMicrotask", function* (_, [f]) { enqueue(function* () { yield* call(f, undefined, []); }); }));
const uriF = (n) => glob(n, native(n, function* (_, [v]) { const s = yield* toStr(v); return mapU(s, (x) => { if (typeof x === "string") { try { return globalThis[n](x); } catch (e) { throwErr("URIError" in protos ? "URIError" : "Error", e.message); } } const r = t.app(n, [x.term], "String"); if (n === "encodeURIComponent") pushPc(t.inRe(r, t.reRaw(`(re.* (re.union (re.range "a" "z") (re.range "A" "Z") (re.range "0" "9") (str.to_re "-") (str.to_re "_") (str.to_re ".") (str.to_re "!") (str.to_re "~") (str.to_re "*") (str.to_re "'") (str.to_re "(") (str.to_re ")") (str.to_re "%")))`))); return mkStr(r); }); }));
for (const n of ["encodeURIComponent", "decodeURIComponent", "encodeURI", "decodeURI"]) uriF(n);
// Proxy / Reflect
glob("Proxy", native("Proxy", function* () { throwErr("TypeError", "requires new"); }, function* ([tgt, h]) { const p = new JObj(tgt.cls, tgt.proto); p.proxy = { target: tgt, handler: h }; return p; }));
const ReflectO = newObj(); glob("Reflect", ReflectO);
def(ReflectO, "get", function* (_, [o, k, r]) { return yield* I.getPropObj(o, propKey(k), r ?? o); });
def(ReflectO, "set", function* (_, [o, k, v]) { yield* put(o, propKey(k), v); return true; });
def(ReflectO, "has", function* (_, [o, k]) { return mkBool(I.hasPropTerm(o, propKey(k))); });
def(ReflectO, "apply", function* (_, [f, th, as]) { return yield* call(f, th, concreteVals(yield* iterToRope(as))); });
def(ReflectO, "construct", function* (_, [f, as, nt]) { return yield* construct(f, concreteVals(yield* iterToRope(as)), nt); });
def(ReflectO, "ownKeys", function* (_, [o]) { return newArr(entriesRope(o.store).map(keySeg)); });
def(ReflectO, "getPrototypeOf", function* (_, [o]) { return o.proto; });
// generators
def(protos.Generator, "next", function* (th, [v]) { const r = yield* genResume(th, "next", v); return iterRes(r); });
def(protos.Generator, "return", function* (th, [v]) { return iterRes(yield* genResume(th, "return", v)); });
def(protos.Generator, "throw", function* (th, [v]) { return iterRes(yield* genResume(th, "throw", v)); });
def(protos.Generator, "\uE000@iterator", function* (th) { return th; });
const iterRes = (r) => { const o = newObj(); o.store = storeSet(storeSet(emptyStore, "value", r.value), "done", r.done); return o; };
def(protos.AsyncGenerator, "\uE000@asyncIterator", function* (th) { return th; });
for (const m of ["next", "return", "throw"]) def(protos.AsyncGenerator, m, function* (th, [v]) {
  const p = newPromise();
  try { const r = yield* genResume(th, m, v); settle(p, "fulfilled", iterRes(r)); } catch (e) { if (e instanceof JSThrow) settle(p, "rejected", e.value); else throw e; }
  return p;
});
// Uint8Array / TextEncoder: opaque byte strings  {bytesOf: string term | host bytes}
const u8 = ctorFn("Uint8Array", function* () {}, function* ([v]) {
  const o = new JObj("Uint8Array", protos.Uint8Array);
  if (v instanceof JObj && v.bytes !== undefined) { o.bytes = v.bytes; o.u8 = v.u8; o.store = hiddenSet(o.store, "length", v.u8 ? v.u8.length : mkNum(t.toReal(t.app("byteLen", [v.bytes], "Int")))); return o; }
  if (typeof v === "number") { o.bytes = "arr"; o.u8 = Array(v).fill(0); o.store = hiddenSet(o.store, "length", v); return o; }
  if (v instanceof JObj && v.cls === "Array") { o.bytes = "arr"; o.u8 = concreteVals(v.rope); o.store = hiddenSet(o.store, "length", o.u8.length); return o; }
  throw new Unsupported("new Uint8Array of this value");
});
defG(protos.Uint8Array, "buffer", function* (th) { if (th.bytes === undefined) throw new Unsupported("buffer"); const o = new JObj("ArrayBuffer", protos.ArrayBuffer); o.bytes = th.bytes; o.u8 = th.u8; return o; });
// a byte sequence with concretely known contents is named by its base64 text
export const bytesTerm = (b) => {
  if (b?.bytes?.op) return b.bytes;
  if (b?.u8 && b.u8.every((x) => typeof x === "number")) return t.app("b64dec", [t.str(Buffer.from(b.u8).toString("base64"))], "String");
  const src = b?.u8 && byteRun(b.u8.map((x) => (x instanceof Sym ? x.term : null)));
  if (src) return src;
  throw new Unsupported("byte contents");
};
const DIGEST = { "SHA-1": 20, "SHA-256": 32, "SHA-384": 48, "SHA-512": 64 };
const sizeOf = (b) => (b.op.startsWith("app:digest:") ? DIGEST[b.op.slice(11)] : undefined);
// [byteAt(b,0), ..., byteAt(b,n-1)] with n = |b|  ==>  b
function byteRun(xs) {
  let b = null;
  for (let i = 0; i < xs.length; i++) {
    let x = xs[i]; if (!x) return null;
    if (x.op === "to_real") x = x.args[0];
    if (x.op !== "app:byteAt" || x.args[1].op !== "int" || x.args[1].data !== i || (b && x.args[0] !== b)) return null;
    b = x.args[0];
  }
  return b && sizeOf(b) === xs.length ? b : null;
}
const b64ok = (x) => t.app("b64ok", [x], "Bool");
glob("atob", native("atob", function* (_, [v]) {
  v = split(yield* toStr(v));
  if (typeof v === "string") { let r; try { r = atob(v); } catch { throwErr("InvalidCharacterError", "The string to be decoded is not correctly encoded."); } return r; }
  if (v.term.op === "app:b64enc") return mkStr(t.app("bin", [v.term.args[0]], "String"));
  if (!decide(b64ok(v.term))) throwErr("InvalidCharacterError", "The string to be decoded is not correctly encoded.");
  return mkStr(t.app("bin", [t.app("b64dec", [v.term], "String")], "String"));
}));
glob("btoa", native("btoa", function* (_, [v]) {
  v = split(yield* toStr(v));
  if (typeof v === "string") { try { return btoa(v); } catch { throwErr("InvalidCharacterError", "Invalid character"); } }
  const x = v.term;
  if (x.op === "app:bin") return mkStr(b64enc(x.args[0]));
  const run = byteRun((x.op === "str.++" ? x.args : [x]).map((y) => (y.op === "app:chr" ? y.args[0] : null)));
  if (run) return mkStr(b64enc(run));
  throw new Unsupported("btoa of this string");
}));
export function b64enc(b) {
  if (b.op === "app:b64dec") { const y = b.args[0]; return y.op === "str" ? t.str(Buffer.from(y.data, "base64").toString("base64")) : t.app("b64norm", [y], "String"); }
  const e = t.app("b64enc", [b], "String"), n = sizeOf(b);
  if (n !== undefined) pushPc(t.eq(t.strlen(e), t.int(4 * Math.ceil(n / 3))));
  return e;
}
def(u8, "from", function* (_, [v, f]) {
  v = narrow(v);
  if (v instanceof JObj && v.cls === "Uint8Array") return yield* construct(u8, [v]);
  if (typeof v === "string") {
    const out = [];
    for (const ch of v) out.push(f === undefined ? Number(ch) : yield* call(f, undefined, [ch, out.length]));
    if (!out.every((x) => typeof x === "number")) throw new Unsupported("Uint8Array.from");
    return yield* construct(u8, [arrOf(out.map((x) => x & 255))]);
  }
  if (v instanceof Sym && v.sort === "str" && f !== undefined) {
    const c = freshTerm("ch", "String"); pushPc(t.eq(t.strlen(c), t.int(1)));
    const r = yield* call(f, undefined, [mkStr(c), mkNum(freshTerm("ci", "Real"))]);
    const code = r instanceof Sym && r.sort === "num" ? r.term : null, x = code?.op === "to_real" ? code.args[0] : code;
    if (!x || x.op !== "app:charCode" || !(x.args[0] === c || (x.args[0].op === "str.substr" && x.args[0].args[0] === c && x.args[0].args[1] === t.int(0)))) throw new Unsupported("Uint8Array.from with this mapping");
    if (v.term.op === "app:bin") return mkBytes(v.term.args[0]);
    return mkBytes(t.app("latin1", [v.term], "String"));
  }
  if (v instanceof JObj && v.cls === "Array" && f === undefined) return yield* construct(u8, [v]);
  throw new Unsupported("Uint8Array.from");
});
export function mkBytes(term) { const o = new JObj("Uint8Array", protos.Uint8Array); o.bytes = term; o.store = hiddenSet(hiddenSet(o.store, "length", mkNum(t.toReal(t.app("byteLen", [term], "Int")))), "byteLength", mkNum(t.toReal(t.app("byteLen", [term], "Int")))); pushPc(t.ge(t.app("byteLen", [term], "Int"), t.int(0))); return o; }
const te = native("TextEncoder", function* () {}, function* () { const o = newObj(); def(o, "encode", function* (_, [s]) { return mkBytes(t.app("utf8", [S1(split(yield* toStr(s)))], "String")); }); return o; });
glob("TextEncoder", te);
glob("TextDecoder", native("TextDecoder", function* () {}, function* () { const o = newObj(); def(o, "decode", function* (_, [b]) { return b.bytes.op === "app:utf8" ? mkStr(b.bytes.args[0]) : mkStr(t.app("utf8dec", [b.bytes], "String")); }); return o; }));
export { G, def, defV, defG, glob, joinRope };

def(protos.Uint8Array, "\uE000@iterator", function* (th) { if (!th.u8) throw new Unsupported("iteration over opaque bytes"); const o = newObj(); o.iterRope = arrOf(th.u8).rope; return o; });
const u8of = (term, n) => Array.from({ length: n }, (_, i) => { const b = t.app("byteAt", [term, t.int(i)], "Int"); pushPc(t.and(t.ge(b, t.int(0)), t.lt(b, t.int(256)))); return mkNum(t.toReal(b)); });
const cryptoO = newObj(); glob("crypto", cryptoO);
const subtle = newObj(); cryptoO.store = storeSet(cryptoO.store, "subtle", subtle);
def(subtle, "digest", function* (_, [alg, data]) {
  data = split(data);
  if (typeof alg !== "string" || !(data instanceof JObj) || DIGEST[alg] === undefined) throw new Unsupported("digest");
  const bt = bytesTerm(data), lit = bt.op === "app:b64dec" && bt.args[0].op === "str" ? Buffer.from(bt.args[0].data, "base64") : bt.op === "app:utf8" && bt.args[0].op === "str" ? Buffer.from(bt.args[0].data, "utf8") : null;
  if (lit) { // known contents: the digest itself
    const o = new JObj("ArrayBuffer", protos.ArrayBuffer); o.bytes = "arr"; o.u8 = [...crypto.createHash(alg.replace("-", "").toLowerCase()).update(lit).digest()];
    o.store = hiddenSet(o.store, "byteLength", o.u8.length);
    return yield* toPromise(o);
  }
  const o = new JObj("ArrayBuffer", protos.ArrayBuffer); o.bytes = t.app("digest:" + alg, [bt], "String"); o.u8 = u8of(o.bytes, DIGEST[alg]);
  o.store = hiddenSet(o.store, "byteLength", o.u8.length);
  return yield* toPromise(o);
});
def(cryptoO, "getRandomValues", function* (_, [a]) { if (!(a instanceof JObj) || !a.u8) throw new Unsupported("getRandomValues"); const b = freshTerm("random", "String"); a.bytes = b; a.u8 = u8of(b, a.u8.length); return a; });
def(cryptoO, "randomUUID", function* () { const u = freshTerm("uuid", "String"); return mkStr(u); });
