// Fast satisfiability witness search for feasibility queries: evaluates the query under candidate assignments.
// Only ever answers "sat" (with a genuine witness) or nothing.
import * as t from "./terms.mjs";
class Abort extends Error {}
export const jsRegex = new Map(); // SMT regex text -> RegExp
jsRegex.set(`(re.+ (re.range "0" "9"))`, /^[0-9]+$/);
jsRegex.set(`(re.++ (re.range "0" "9") (re.* (re.range "0" "9")))`, /^[0-9]+$/);
jsRegex.set(`((_ re.^ 2) (re.union (re.range "0" "9") (re.range "a" "f")))`, /^[0-9a-f]{2}$/);
export const stats = { hits: 0, misses: 0, aborts: 0, ms: 0 };
let recent = []; // successful models
const MAXN = 2500;
function collect(ts) {
  const seen = new Set(), strs = new Set(["", "q~", "1"]), nums = new Set([0, 1, 2, -1, 7]);
  const st = [...ts]; let n = 0;
  while (st.length) {
    const x = st.pop(); if (seen.has(x.id)) continue; seen.add(x.id);
    if (++n > MAXN) return null;
    if (x.op === "rawq") return null;
    if (x.op === "str") strs.add(x.data); else if (x.op === "int" || x.op === "real") { nums.add(x.data); nums.add(x.data + 1); nums.add(x.data - 1); }
    for (const a of x.args) st.push(a);
  }
  for (const s of [...strs].slice(0, 40)) { strs.add(s + "q"); if (s.length > 1) strs.add(s.slice(0, -1)); }
  for (const s of ["a", "abc", "2024", "x".repeat(41), "x".repeat(201)]) strs.add(s);
  return { strs: [...strs], nums: [...nums].filter((x) => Number.isFinite(x)), n };
}
let seed = 12345;
const rnd = (n) => { seed = (Math.imul(seed, 1103515245) + 12345) & 0x7fffffff; return seed % n; };
function candidates(sort, c, term) {
  switch (sort) {
    case "Bool": return [false, true];
    case "Int": return c.nums.filter(Number.isInteger);
    case "Real": return c.nums;
    case "String": return c.strs;
    case "Val": {
      const k = t.knownIs.get(term.id);
      const all = [];
      const add = (tag, vs) => { if (!k || k === tag) for (const v of vs) all.push({ tag, v }); };
      add("VS", c.strs.slice(0, 60)); add("VUndef", [null]); add("VNull", [null]); add("VB", [true, false]); add("VN", c.nums.slice(0, 30)); add("VArr", [1, 2]); add("VObj", [1, 2]);
      return all;
    }
  }
  throw new Abort();
}
const key = (v) => (v !== null && typeof v === "object" ? v.tag + ":" + String(v.v) : typeof v === "string" ? "s" + v : String(v));
const eqv = (a, b) => (a !== null && typeof a === "object" ? b !== null && typeof b === "object" && a.tag === b.tag && a.v === b.v : a === b);
function evaluator(model, c, touched) {
  const memo = new Map();
  const look = (k, x) => {
    touched?.set(k, x);
    let v = model.get(k);
    if (v === undefined) { const cs = candidates(x.sort, c, x); if (!cs.length) throw new Abort(); v = cs[x.sort === "Val" || x.sort === "String" ? 0 : rnd(cs.length)]; model.set(k, v); }
    return v;
  };
  const e = (x) => {
    let v = memo.get(x.id);
    if (v !== undefined) return v;
    v = go(x); memo.set(x.id, v); return v;
  };
  const go = (x) => {
    const a = x.args;
    switch (x.op) {
      case "true": return true; case "false": return false;
      case "int": case "real": case "str": return x.data;
      case "VUndef": case "VNull": return { tag: x.op, v: null };
      case "VB": case "VN": case "VS": case "VArr": case "VFun": case "VObj": return { tag: x.op, v: e(a[0]) };
      case "const": return look("c" + x.data, x);
      case "not": return !e(a[0]);
      case "and": for (const y of a) if (!e(y)) return false; return true;
      case "or": for (const y of a) if (e(y)) return true; return false;
      case "ite": return e(a[0]) ? e(a[1]) : e(a[2]);
      case "=": return eqv(e(a[0]), e(a[1]));
      case "<": return e(a[0]) < e(a[1]); case "<=": return e(a[0]) <= e(a[1]); case ">": return e(a[0]) > e(a[1]); case ">=": return e(a[0]) >= e(a[1]);
      case "+": { let s = 0; for (const y of a) s += e(y); return s; }
      case "-": { if (a.length === 1) return -e(a[0]); let s = e(a[0]); for (const y of a.slice(1)) s -= e(y); return s; }
      case "*": { let s = 1; for (const y of a) s *= e(y); return s; }
      case "to_real": return e(a[0]); case "to_int": return Math.floor(e(a[0])); case "is_int": return Number.isInteger(e(a[0]));
      case "str.len": return e(a[0]).length;
      case "str.++": return a.map(e).join("");
      case "str.prefixof": return e(a[1]).startsWith(e(a[0])); case "str.suffixof": return e(a[1]).endsWith(e(a[0])); case "str.contains": return e(a[0]).includes(e(a[1]));
      case "str.<": return e(a[0]) < e(a[1]);
      case "str.substr": { const s = e(a[0]), i = e(a[1]), n = e(a[2]); return i < 0 || i >= s.length || n <= 0 ? "" : s.substr(i, n); }
      case "str.indexof": { const s = e(a[0]), y = e(a[1]), i = e(a[2]); return i < 0 || i > s.length ? -1 : s.indexOf(y, i); }
      case "str.replace": { const s = e(a[0]), y = e(a[1]), z = e(a[2]); return y === "" ? z + s : s.replace(y, () => z); }
      case "str.replace_all": { const s = e(a[0]), y = e(a[1]), z = e(a[2]); return y === "" ? s : s.split(y).join(z); }
      case "str.in_re": { const re = jsRegex.get(a[1].data); if (!re) throw new Abort(); return re.test(e(a[0])); }
      case "vb": case "vn": case "vs": case "va": case "vf": case "vo": {
        const v = e(a[0]); const want = { vb: "VB", vn: "VN", vs: "VS", va: "VArr", vf: "VFun", vo: "VObj" }[x.op];
        return v.tag === want ? v.v : look("sel" + x.op + key(v), x);
      }
    }
    if (x.op.startsWith("is-")) return e(a[0]).tag === x.op.slice(3);
    if (x.op.startsWith("app:")) return look(x.op + "(" + a.map((y) => key(e(y))).join("\u0001") + ")", x);
    throw new Abort();
  };
  return e;
}
export function quickSat(ts) {
  const t0 = performance.now();
  try {
    const c = collect(ts);
    if (!c) { stats.aborts++; return false; }
    let work = 0; const budget = 4000; // evaluations of the query, so that the outcome does not depend on the clock
    const run = (model, touched) => { work += 1 + c.n / 20; const e = evaluator(model, c, touched); const bad = []; for (const x of ts) if (!e(x)) bad.push(x); return bad; };
    for (let i = recent.length - 1; i >= 0; i--) { const m = new Map(recent[i]); if (run(m).length === 0) { recent.splice(i, 1); recent.push(m); stats.hits++; return true; } }
    const model = new Map(recent.length ? recent[recent.length - 1] : []);
    let bad = run(model);
    for (let step = 0; step < 60 && bad.length; step++) {
      if (work > budget) break;
      const target = bad[rnd(bad.length)], touched = new Map();
      evaluator(model, c, touched)(target);
      const ks = [...touched]; if (!ks.length) break;
      let best = null, bestN = Infinity;
      for (let tries = 0; tries < Math.min(3, ks.length); tries++) {
        const [k, x] = ks[rnd(ks.length)];
        for (const v of candidates(x.sort, c, x)) {
          if (work > budget) break;
          const m = new Map(model); m.set(k, v);
          work += 0.3; if (!evaluator(m, c)(target)) continue;
          const b = run(m);
          if (b.length < bestN) { bestN = b.length; best = m; if (!b.length) break; }
        }
        if (bestN === 0) break;
      }
      if (best) { model.clear(); for (const [k, v] of best) model.set(k, v); bad = run(model); }
      else { const [k, x] = ks[rnd(ks.length)]; const cs = candidates(x.sort, c, x); model.set(k, cs[rnd(cs.length)]); bad = run(model); }
    }
    if (bad.length === 0 && run(model).length === 0) { recent.push(model); if (recent.length > 12) recent.shift(); stats.hits++; return true; }
    stats.misses++;
    return false;
  } catch (e) { if (e instanceof Abort || e instanceof TypeError || e instanceof RangeError) { stats.aborts++; return false; } throw e; }
  finally { stats.ms += performance.now() - t0; }
}
export const resetQuick = () => { recent = []; seed = 12345; };
