// Hash-consed SMT terms with light simplification.
// Sorts: Bool Int Real String Val RegLan
let nextId = 1;
const table = new Map();
export class Term {
  constructor(op, args, sort, data) {
    this.op = op; this.args = args; this.sort = sort; this.data = data; this.id = nextId++;
  }
  toString() { return show(this); }
}
export function peekNode(op, a) { return table.get(op + "|Bool|," + a.id)?.id; }
function node(op, args, sort, data) {
  let key = op + "|" + sort + "|" + (data === undefined ? "" : typeof data + ":" + String(data));
  for (const a of args) key += "," + a.id;
  let t = table.get(key);
  if (!t) { t = new Term(op, args, sort, data); table.set(key, t); }
  return t;
}
export const T = node("true", [], "Bool");
export const F = node("false", [], "Bool");
export const bool = (b) => (b ? T : F);
export const int = (n) => node("int", [], "Int", n);
export const real = (n) => { if (!Number.isFinite(n)) throw new Error("non-finite real " + n); return node("real", [], "Real", Object.is(n, -0) ? 0 : n); };
export const str = (s) => node("str", [], "String", s);
export const cst = (name, sort) => node("const", [], sort, name);
export const app = (f, args, sort) => node("app:" + f, args, sort);
const isConst = (t) => t.op === "true" || t.op === "false" || t.op === "int" || t.op === "real" || t.op === "str";
export const litVal = (t) => t.op === "true" ? true : t.op === "false" ? false : t.data;
export { isConst };

export function not(a) {
  if (a === T) return F; if (a === F) return T;
  if (a.op === "not") return a.args[0];
  return node("not", [a], "Bool");
}
export function and(...xs) {
  const out = [];
  const seen = new Set();
  const go = (x) => {
    if (x === T) return true;
    if (x === F) return false;
    if (x.op === "and") { for (const y of x.args) if (!go(y)) return false; return true; }
    if (seen.has(x)) return true;
    if (seen.has(not(x))) return false;
    seen.add(x); out.push(x); return true;
  };
  for (const x of xs) if (!go(x)) return F;
  if (out.length === 0) return T;
  if (out.length === 1) return out[0];
  // constructor testers are mutually exclusive
  let pos = null;
  for (const x of out) if (x.op.startsWith("is-")) { const p = (pos ??= new Map()).get(x.args[0].id); if (p) return F; pos.set(x.args[0].id, x); }
  if (pos) {
    const o2 = out.filter((x) => !(x.op === "not" && x.args[0].op.startsWith("is-") && pos.has(x.args[0].args[0].id)));
    if (o2.length < out.length) return o2.length === 1 ? o2[0] : node("and", o2, "Bool");
  }
  return node("and", out, "Bool");
}
export function or(...xs) {
  const out = [];
  const seen = new Set();
  const go = (x) => {
    if (x === F) return true;
    if (x === T) return false;
    if (x.op === "or") { for (const y of x.args) if (!go(y)) return false; return true; }
    if (seen.has(x)) return true;
    if (seen.has(not(x))) return false;
    seen.add(x); out.push(x); return true;
  };
  for (const x of xs) if (!go(x)) return T;
  if (out.length === 0) return F;
  if (out.length === 1) return out[0];
  // (a and b) or (a and not b) => a ; simple pairwise
  if (out.length === 2) {
    const [p, q] = out;
    const ps = p.op === "and" ? p.args : [p], qs = q.op === "and" ? q.args : [q];
    if (ps.length === qs.length) {
      const common = ps.filter((x) => qs.includes(x));
      if (common.length === ps.length - 1) {
        const d1 = ps.find((x) => !common.includes(x)), d2 = qs.find((x) => !common.includes(x));
        if (d1 && d2 && not(d1) === d2) return and(...common);
      }
    }
  }
  return node("or", out, "Bool");
}
export const implies = (a, b) => or(not(a), b);
export function ite(c, a, b) {
  if (c === T) return a; if (c === F) return b; if (a === b) return a;
  if (c.op === "not") return ite(c.args[0], b, a);
  if (a.sort === "Bool") {
    if (a === T && b === F) return c;
    if (a === F && b === T) return not(c);
    if (a === T) return or(c, b);
    if (a === F) return and(not(c), b);
    if (b === T) return or(not(c), a);
    if (b === F) return and(c, a);
  }
  if (a.op === "ite" && a.args[0] === c) a = a.args[1];
  if (b.op === "ite" && b.args[0] === c) b = b.args[2];
  if (a === b) return a;
  return node("ite", [c, a, b], a.sort);
}
const VCONS = { VUndef: [], VNull: [], VB: ["vb"], VN: ["vn"], VS: ["vs"], VArr: ["va"], VFun: ["vf"], VObj: ["vo"] };
const VARG = { vb: "Bool", vn: "Real", vs: "String", va: "Int", vf: "Int", vo: "Int" };
export const VUndef = node("VUndef", [], "Val"), VNull = node("VNull", [], "Val");
export const con = (c, a) => {
  const acc = VCONS[c][0];
  if (a.op === acc && knownIs.get(a.args[0].id) === c) return a.args[0];
  return node(c, [a], "Val");
};
// terms known (by typing) to be of a given constructor
export const knownIs = new Map();
const isCons = (t) => t.op in VCONS;
export function is(c, v) {
  if (isCons(v)) return bool(v.op === c);
  const k = knownIs.get(v.id);
  if (k) return bool(k === c);
  if (v.op === "ite") {
    const a = is(c, v.args[1]), b = is(c, v.args[2]);
    return ite(v.args[0], a, b);
  }
  return node("is-" + c, [v], "Bool");
}
export function acc(f, v) {
  if (isCons(v) && VCONS[v.op][0] === f) return v.args[0];
  if (v.op === "ite") {
    const a = v.args[1], b = v.args[2];
    const c = Object.keys(VCONS).find((k) => VCONS[k][0] === f);
    if (isCons(a) && a.op !== c) return acc(f, b);
    if (isCons(b) && b.op !== c) return acc(f, a);
    return ite(v.args[0], acc(f, a), acc(f, b));
  }
  return node(f, [v], VARG[f]);
}
// JSON texts and hexadecimal bytes are never empty
const neverEmpty = (x) => x.op === "str" ? x.data !== "" : x.op === "app:hexByte" || x.op.startsWith("app:json") && x.sort === "String" || x.op === "const" && x.data.startsWith("jsonC$") || x.op === "str.++" && x.args.some(neverEmpty);
export function eq(a, b) {
  if (a === b) return T;
  if (a.sort !== b.sort) {
    if (a.sort === "Int" && b.sort === "Real") a = toReal(a);
    else if (a.sort === "Real" && b.sort === "Int") b = toReal(b);
    else throw new Error("sort mismatch in eq: " + a.sort + " " + b.sort);
    if (a === b) return T;
  }
  if (isConst(a) && isConst(b)) return bool(litVal(a) === litVal(b));
  for (const [x, y] of [[a, b], [b, a]]) { // code of a character against a constant
    const c = x.op === "to_real" ? x.args[0] : x;
    if (c.op === "app:charCode" && isConst(y)) { const n = Number(litVal(y)); if (Number.isInteger(n) && n >= 0 && n < 0xd800) return eq(c.args[0], str(String.fromCharCode(n))); }
  }
  if (a.sort === "Bool") {
    if (a === T) return b; if (a === F) return not(b);
    if (b === T) return a; if (b === F) return not(a);
    if (a === not(b)) return F;
  }
  if (a.sort === "Val") {
    const ca = isCons(a) ? a.op : knownIs.get(a.id), cb = isCons(b) ? b.op : knownIs.get(b.id);
    if (ca && cb && ca !== cb) return F;
    if (isCons(a) && isCons(b)) { return a.args.length ? eq(a.args[0], b.args[0]) : T; }
    if (isCons(b) && !isCons(a)) return eq(b, a);
    if (isCons(a)) {
      if (b.op === "ite") return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]));
      if (cb === ca) return a.args.length ? eq(a.args[0], acc(VCONS[ca][0], b)) : T;
      if (a.args.length === 0) return is(a.op, b);
      return and(is(a.op, b), eq(a.args[0], acc(VCONS[a.op][0], b)));
    }
  }
  if (isConst(a) && b.op === "ite" && (isConst(b.args[1]) || isConst(b.args[2]))) return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]));
  if (isConst(b) && a.op === "ite" && (isConst(a.args[1]) || isConst(a.args[2]))) return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
  if (a.sort === "String" && ((a.op === "str" && a.data === "" && neverEmpty(b)) || (b.op === "str" && b.data === "" && neverEmpty(a)))) return F;
  if (a.op === "ite" && b.op === "ite" && a.args[0] === b.args[0]) return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]));
  if (a.sort === "String") {
    for (const [x, y] of [[a, b], [b, a]]) // the last characters
      if (x.op === "str" && x.data !== "" && y.op === "str.substr" && y.args[2].op === "int" && Number(y.args[2].data) === x.data.length && y.args[1] === iadd(strlen(y.args[0]), int(-x.data.length))) return suffixof(x, y.args[0]);
    for (const [x, y] of [[a, b], [b, a]]) // the first characters
      if (x.op === "str" && x.data !== "" && y.op === "str.substr" && y.args[1] === int(0) && y.args[2].op === "int" && Number(y.args[2].data) === x.data.length) return prefixof(x, y.args[0]);
    // concat with common prefixes / suffixes
    const la = catList(a), lb = catList(b);
    if (la.length > 1 || lb.length > 1) {
      let i = 0;
      while (i < la.length && i < lb.length && la[i] === lb[i]) i++;
      let ja = la.length, jb = lb.length;
      while (ja > i && jb > i && la[ja - 1] === lb[jb - 1]) { ja--; jb--; }
      if (i > 0 || ja < la.length) return eq(concat(...la.slice(i, ja)), concat(...lb.slice(i, jb)));
      const fa = la[0], fb = lb[0];
      if (fa && fb && fa.op === "str" && fb.op === "str") {
        const n = Math.min(fa.data.length, fb.data.length);
        if (fa.data.slice(0, n) !== fb.data.slice(0, n)) return F;
        if (n > 0) return eq(concat(str(fa.data.slice(n)), ...la.slice(1)), concat(str(fb.data.slice(n)), ...lb.slice(1)));
      }
    }
  }
  if (a.id > b.id) [a, b] = [b, a];
  return node("=", [a, b], "Bool");
}
const catList = (t) => (t.op === "str.++" ? t.args : t.op === "str" && t.data === "" ? [] : [t]);
export function concat(...xs) {
  const out = [];
  for (const x of xs) for (const y of catList(x)) {
    const l = out[out.length - 1];
    if (l && l.op === "str" && y.op === "str") out[out.length - 1] = str(l.data + y.data);
    else out.push(y);
  }
  if (out.length === 0) return str("");
  if (out.length === 1) return out[0];
  return node("str.++", out, "String");
}
export { catList };
export function strlen(a) {
  if (a.op === "str") return int(a.data.length);
  if (a.op === "str.++") return iadd(...a.args.map(strlen));
  if (a.op === "app:hexByte") return int(2);
  if (charMap(a)) return strlen(a.args[0]);
  if (a.op === "ite" && a.args[1].op === "str" && a.args[2].op === "str") return ite(a.args[0], strlen(a.args[1]), strlen(a.args[2]));
  return node("str.len", [a], "Int");
}
export function iadd(...xs) {
  let c = 0; const out = [];
  const go = (x) => { if (x.op === "int") c += x.data; else if (x.op === "+" && x.sort === "Int") x.args.forEach(go); else out.push(x); };
  xs.forEach(go);
  if (c !== 0 || out.length === 0) out.push(int(c));
  return out.length === 1 ? out[0] : node("+", out, "Int");
}
export function isub(a, b) {
  if (b.op === "int") return iadd(a, int(-b.data));
  if (a === b) return int(0);
  if (a.op === "+") { const i = a.args.indexOf(b); if (i >= 0) { const r = a.args.filter((_, j) => j !== i); return iadd(...r); } }
  return node("-", [a, b], "Int");
}
const coerce2 = (a, b) => {
  if (a.sort === b.sort) return [a, b];
  return [toReal(a), toReal(b)];
};
export function toReal(a) {
  if (a.sort === "Real") return a;
  if (a.op === "int") return real(a.data);
  return node("to_real", [a], "Real");
}
export function toInt(a) {
  if (a.sort === "Int") return a;
  if (a.op === "real") return int(Math.floor(a.data));
  if (a.op === "to_real") return a.args[0];
  if (a.op === "ite") return ite(a.args[0], toInt(a.args[1]), toInt(a.args[2]));
  return node("to_int", [a], "Int");
}
export function isInt(a) {
  if (a.sort === "Int" || a.op === "to_real") return T;
  if (a.op === "real") return bool(Number.isInteger(a.data));
  return node("is_int", [a], "Bool");
}
const INTR = new Set(["to_real"]);
export function add(a, b) {
  [a, b] = coerce2(a, b);
  if (a.sort === "Int") return iadd(a, b);
  if (a.op === "real" && b.op === "real") return real(a.data + b.data);
  if (a.op === "real" && a.data === 0) return b;
  if (b.op === "real" && b.data === 0) return a;
  if ((a.op === "to_real" || (a.op === "real" && Number.isInteger(a.data))) && (b.op === "to_real" || (b.op === "real" && Number.isInteger(b.data)))) return toReal(iadd(toInt(a), toInt(b)));
  return node("+", [a, b], "Real");
}
export function sub(a, b) {
  [a, b] = coerce2(a, b);
  if (a.sort === "Int") return isub(a, b);
  if (a.op === "real" && b.op === "real") return real(a.data - b.data);
  if (b.op === "real" && b.data === 0) return a;
  if (a === b) return real(0);
  if ((a.op === "to_real" || (a.op === "real" && Number.isInteger(a.data))) && (b.op === "to_real" || (b.op === "real" && Number.isInteger(b.data)))) return toReal(isub(toInt(a), toInt(b)));
  return node("-", [a, b], "Real");
}
export function mul(a, b) {
  [a, b] = coerce2(a, b);
  if (isConst(a) && isConst(b)) return a.sort === "Int" ? int(a.data * b.data) : real(a.data * b.data);
  if (isConst(a) && a.data === 1) return b;
  if (isConst(b) && b.data === 1) return a;
  return node("*", [a, b], a.sort);
}
export function div(a, b) {
  a = toReal(a); b = toReal(b);
  if (a.op === "real" && b.op === "real" && b.data !== 0) return real(a.data / b.data);
  return node("/", [a, b], "Real");
}
export function lowerBound(x) { // syntactic lower bound of an integer term
  switch (x.op) {
    case "int": return x.data;
    case "str.len": return neverEmpty(x.args[0]) ? 1 : 0;
    case "+": { let r = 0; for (const a of x.args) r += lowerBound(a); return r; }
    case "ite": return Math.min(lowerBound(x.args[1]), lowerBound(x.args[2]));
  }
  return -Infinity;
}
export function lt(a, b) {
  [a, b] = coerce2(a, b);
  if (a === b) return F;
  if (isConst(a) && isConst(b)) return bool(a.data < b.data);
  if (a.op === "to_real" && b.op === "to_real") return lt(a.args[0], b.args[0]);
  if (a.op === "to_real" && b.op === "real") return Number.isInteger(b.data) ? lt(a.args[0], int(b.data)) : node("<", [a, b], "Bool");
  if (b.op === "to_real" && a.op === "real") return Number.isInteger(a.data) ? lt(int(a.data), b.args[0]) : node("<", [a, b], "Bool");
  if (a.op === "int" && b.sort === "Int" && lowerBound(b) > a.data) return T;
  if (a.sort === "Int" && b.sort === "Int" && (a.op === "+" || b.op === "+")) { const d = intDiff(a, b); if (typeof d === "number") return bool(d < 0); }
  if (b.op === "int" && a.sort === "Int" && lowerBound(a) >= b.data) return F;
  if (b.op === "str.len" && a.op === "int" && a.data < 0) return T;
  if (a.op === "str.len" && b.op === "int" && b.data <= 0) return F;
  return node("<", [a, b], "Bool");
}
export const le = (a, b) => not(lt(b, a));
export const gt = (a, b) => lt(b, a);
export const ge = (a, b) => not(lt(a, b));
export function prefixof(p, s) {
  if (p.op === "str" && s.op === "str") return bool(s.data.startsWith(p.data));
  if (p.op === "str" && p.data === "") return T;
  if (p === s) return T;
  const l = catList(s);
  if (p.op === "str" && l.length > 1 && l[0].op === "str") {
    const h = l[0].data;
    if (h.length >= p.data.length) return bool(h.startsWith(p.data));
    if (!p.data.startsWith(h)) return F;
    return prefixof(str(p.data.slice(h.length)), concat(...l.slice(1)));
  }
  return node("str.prefixof", [p, s], "Bool");
}
export function suffixof(p, s) {
  if (p.op === "str" && s.op === "str") return bool(s.data.endsWith(p.data));
  if (p.op === "str" && p.data === "") return T;
  // percent-encoded text has no reserved characters
  if (p.op === "str" && p.data.length === 1 && !/[A-Za-z0-9\-_.!~*'()%]/.test(p.data)) {
    const parts = s.op === "str.++" ? s.args : [s], l = parts[parts.length - 1];
    if (l.op === "app:encodeURIComponent") return and(eq(l, str("")), suffixof(p, concat(...parts.slice(0, -1))));
  }
  return node("str.suffixof", [p, s], "Bool");
}
export function contains(s, x) {
  if (x.op === "str" && s.op === "str") return bool(s.data.includes(x.data));
  if (x.op === "str" && x.data === "") return T;
  if (x.op === "str" && s.op === "str.++" && s.args.some((a) => a.op === "str" && a.data.includes(x.data))) return T;
  return node("str.contains", [s, x], "Bool");
}
export function substr(s, i, n) {
  if (charMap(s)) return replaceAllT(substr(s.args[0], i, n), s.args[1], s.args[2]);
  if (s.op === "str" && i.op === "int" && n.op === "int") return str(i.data < 0 ? "" : s.data.substr(i.data, Math.max(0, n.data)));
  if (i.op === "int" && i.data >= 0) {
    const l = catList(s);
    if (i.data === 0 && n === strlen(s)) return s;
    if (l.length >= 1 && l[0].op === "str" && l[0].data.length <= i.data && i.data > 0) {
      const rest = concat(...l.slice(1));
      return substr(rest, int(i.data - l[0].data.length), n);
    }
    if (l.length > 1 && l[0].op === "str" && l[0].data.length > i.data && i.data > 0) return substr(concat(str(l[0].data.slice(i.data)), ...l.slice(1)), int(0), n);
    if (i.data === 0 && n.op === "int" && l.length > 1 && l[0].op === "str" && l[0].data.length >= n.data) return str(l[0].data.slice(0, n.data));
    if (i.data === 0 && n === strlen(s)) return s;
    if (n.op === "int" && l.length > 1) { // parts of known length
      let k = 0, sk = 0; const ls = l.map((x) => strlen(x));
      while (k < l.length && ls[k].op === "int" && sk + ls[k].data <= i.data) sk += ls[k++].data;
      if (sk === i.data) { let e = k, se = 0; while (e < l.length && se < n.data && ls[e].op === "int") se += ls[e++].data; if (se === n.data) return e === k ? str("") : concat(...l.slice(k, e)); }
    }
  }
  const parts = s.op === "str.++" ? catList(s) : null;
  if (parts) for (let k = 1; k < parts.length; k++) {
    const p = concat(...parts.slice(0, k)), lp = strlen(p), next = parts[k];
    if (lp.op === "int") continue;
    const off = (x) => { return intDiff(x, lp); };
    if (i.op === "int" && i.data === 0) { const c = off(n); if (c !== null && c >= 0 && (c === 0 || (next.op === "str" && next.data.length >= c))) return c === 0 ? p : concat(p, str(next.data.slice(0, c))); }
    if (n.op === "int" && n.data >= 0) {
      const c = off(i);
      if (c !== null && c < 0 && -c >= n.data) return substr(p, i, n); // a negative offset is empty on both sides
      if (c !== null && c >= 0 && next.op === "str" && next.data.length >= c + n.data) return str(next.data.slice(c, c + n.data));
    }
  }
  if (i.op === "int" && i.data === 0 && n.op === "ite" && n.args[1] === strlen(s) && n.args[2].op === "int" && n.args[2].data >= 0 && n.args[0] === lt(n.args[1], n.args[2])) return substr(s, i, n.args[2]); // substr itself stops at the end
  return node("str.substr", [s, i, n], "String");
}
// a - b where that is a constant, else null
function intDiff(a, b) {
  const sum = (x) => (x.op === "+" && x.sort === "Int" ? x.args : [x]);
  let c = 0; const rest = [];
  for (const x of sum(a)) if (x.op === "int") c += x.data; else rest.push(x);
  for (const x of sum(b)) if (x.op === "int") c -= x.data; else { const k = rest.indexOf(x); if (k < 0) return null; rest.splice(k, 1); }
  return rest.length ? null : c;
}
export function indexof(s, x, i) {
  if (s.op === "str" && x.op === "str" && i.op === "int") return int(s.data.indexOf(x.data, i.data));
  return node("str.indexof", [s, x, i], "Int");
}
export const replaceFirst = (s, a, b) => {
  if (s.op === "str" && a.op === "str" && b.op === "str") return str(s.data.replace(a.data, () => b.data));
  return node("str.replace", [s, a, b], "String");
};
export const replaceAllT = (s, a, b) => {
  if (s.op === "str" && a.op === "str" && b.op === "str") return str(s.data.replaceAll(a.data, () => b.data));
  const all = (x) => node("str.replace_all", [x, a, b], "String");
  if (a.op === "str" && a.data !== "") return all(s);
  // an empty pattern matches between all characters (SMT-LIB: nowhere)
  return ite(eq(a, str("")), app("replaceAllEmpty", [s, b], "String"), all(s));
};
// one character for another: lengths and positions are kept
const charMap = (s) => s.op === "str.replace_all" && s.args[1].op === "str" && s.args[1].data.length === 1 && s.args[2].op === "str" && s.args[2].data.length === 1;
export const strLt = (a, b) => (a.op === "str" && b.op === "str") ? bool(a.data < b.data) : node("str.<", [a, b], "Bool");
export function inRe(s, re, reKey) { return node("str.in_re", [s, re], "Bool"); }
export const reRaw = (text) => node("raw", [], "RegLan", text);
export const rawBool = (text, deps) => node("rawq", deps, "Bool", text);

export function subst(t, map, memo = new Map()) {
  if (map.size === 0) return t;
  const r0 = map.get(t);
  if (r0) return r0;
  if (t.args.length === 0) return t;
  const m = memo.get(t);
  if (m) return m;
  let ch = false;
  const args = t.args.map((a) => { const b = subst(a, map, memo); if (b !== a) ch = true; return b; });
  const r = ch ? rebuild(t, args) : t;
  memo.set(t, r);
  return r;
}
export function rebuild(t, a) {
  switch (t.op) {
    case "not": return not(a[0]);
    case "and": return and(...a);
    case "or": return or(...a);
    case "ite": return ite(a[0], a[1], a[2]);
    case "=": return eq(a[0], a[1]);
    case "<": return lt(a[0], a[1]);
    case "+": return a.length === 2 ? add(a[0], a[1]) : iadd(...a);
    case "-": return sub(a[0], a[1]);
    case "*": return mul(a[0], a[1]);
    case "/": return div(a[0], a[1]);
    case "to_real": return toReal(a[0]);
    case "to_int": return toInt(a[0]);
    case "is_int": return isInt(a[0]);
    case "str.++": return concat(...a);
    case "str.len": return strlen(a[0]);
    case "str.prefixof": return prefixof(a[0], a[1]);
    case "str.suffixof": return suffixof(a[0], a[1]);
    case "str.contains": return contains(a[0], a[1]);
    case "str.substr": return substr(a[0], a[1], a[2]);
    case "str.indexof": return indexof(a[0], a[1], a[2]);
    case "vb": case "vn": case "vs": case "va": case "vf": case "vo": return acc(t.op, a[0]);
    case "VB": case "VN": case "VS": case "VArr": case "VFun": case "VObj": return con(t.op, a[0]);
    default:
      if (t.op.startsWith("is-")) return is(t.op.slice(3), a[0]);
      { const r = node(t.op, a, t.sort, t.data);
        if (knownIs.has(t.id) && !knownIs.has(r.id)) knownIs.set(r.id, knownIs.get(t.id));
        return r; }
  }
}
export function mentions(t, c, memo = new Map()) {
  if (t === c) return true;
  if (t.args.length === 0) return false;
  const m = memo.get(t.id);
  if (m !== undefined) return m;
  memo.set(t.id, false);
  const r = t.args.some((a) => mentions(a, c, memo));
  memo.set(t.id, r);
  return r;
}
export function smtStr(s) {
  let o = '"';
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c === 34) o += '""';
    else if (c < 32 || c > 126 || c === 92) o += "\\u{" + c.toString(16) + "}";
    else o += s[i];
  }
  return o + '"';
}
export function smtReal(n) {
  if (n < 0) return `(- ${smtReal(-n)})`;
  if (Number.isInteger(n)) return BigInt(n).toString() + ".0";
  // exact rational
  let d = 1n, x = n; let k = 0;
  while (!Number.isInteger(x) && k < 1100) { x *= 2; d *= 2n; k++; }
  return `(/ ${BigInt(x)}.0 ${d}.0)`;
}
export const symName = (n) => (/^[A-Za-z_][A-Za-z0-9_!.]*$/.test(n) ? n : "|" + n.replace(/[|\\]/g, "_") + "|");
export function show(t, d = 0) {
  if (t.op === "str") return JSON.stringify(t.data);
  if (t.op === "int" || t.op === "real") return String(t.data);
  if (t.op === "const") return t.data;
  if (t.args.length === 0) return t.op === "raw" ? "<re>" : t.op;
  if (d > 12) return "…";
  return "(" + t.op.replace(/^app:/, "") + " " + t.args.map((a) => show(a, d + 1)).join(" ") + ")";
}
