// Symbolic state: values, path conditions, decisions, regions (explore + merge).
import * as t from "./terms.mjs";
import * as solver from "./solver.mjs";

export class JSThrow { constructor(value) { this.value = value; } }
export class Infeasible {}
export class Unsupported extends Error { constructor(m) { super(m); this.name = "Unsupported"; } }
export class NeedFork extends Error { constructor(sites) { super("needfork"); this.sites = sites; } }

export class Sym { constructor(sort, term) { this.sort = sort; this.term = term; } } // sort: bool num str any
export class Union { constructor(alts) { this.alts = alts; } }
export class JSymbol { constructor(desc, reg) { this.desc = desc; this.key = "\uE000@" + (reg ? "for:" : JSymbol.n++ + ":") + desc; } }
JSymbol.n = 1;

export const S = {
  pc: [], pcSet: new Map(), trail: [], decider: null, regions: [], idxStack: [], nomerge: new Set(), mergedSites: new Set(), recN: 0,
  fresh: { n: 0 }, objId: 1, trailOff: 0, micro: [], unit: null, loops: null, imprecise: { v: null }, steps: 0, maxSteps: 3e6,
};

// objects allocated while a loop over an unknown sequence is summarised carry the loop indices (ix); once the loop is
// left they stand for one object per index and may only be copied (substValue), not changed
const CONTENT = new Set(["store", "rope", "mstore", "state", "value", "v"]);
export function set(o, k, v) {
  if (o.frozen && (k === "rope" || k === "store")) throw new Unsupported("change to a frozen object");
  if (o.shared && (k === "store" || k === "rope")) throw new Unsupported("change to an element of an unknown sequence");
  if (o.ix && CONTENT.has(k) && !S.sealing && (o.args || o.ix.some((x) => !S.idxStack.includes(x)))) { if (process.env.TSCV_LOOP) console.error(o, k, new Error().stack); throw new Unsupported("change to an object created in a summarised loop") };
  if (!S.trailOff) S.trail.push(o, k, o[k]);
  o[k] = v;
}
export function rollback(mark) {
  const tr = S.trail;
  while (tr.length > mark) { const old = tr.pop(), k = tr.pop(), o = tr.pop(); o[k] = old; }
}
export function pushPc(x) {
  if (x === t.T) return;
  if (x.op === "and") { for (const a of x.args) pushPc(a); return; }
  if (S.pcSet.has(x.id)) return;
  S.pcSet.set(x.id, S.pc.length);
  S.pc.push(x);
}
export function truncPc(n) { while (S.pc.length > n) { const x = S.pc.pop(); S.pcSet.delete(x.id); } }
export function assume(x) {
  if (x === t.T) return;
  if (x === t.F || S.pcSet.has(t.not(x).id)) throw new Infeasible();
  pushPc(x);
}
export function known(x) {
  if (x === t.T) return true;
  if (x === t.F) return false;
  if (S.pcSet.has(x.id)) return true;
  if (S.pcSet.has(t.not(x).id)) return false;
  if (x.op === "and") { let all = true; for (const a of x.args) { const k = known(a); if (k === false) return false; if (k !== true) all = false; } return all ? true : undefined; }
  if (x.op === "or") { let all = true; for (const a of x.args) { const k = known(a); if (k === true) return true; if (k !== false) all = false; } return all ? false : undefined; }
  if (x.op === "not") { const k = known(x.args[0]); return k === undefined ? undefined : !k; }
  if (x.op.startsWith("is-")) { for (const c of TAGS) if (x.op !== c) { const i = t.peekNode(c, x.args[0]); if (i !== undefined && S.pcSet.has(i)) return false; } }
  return undefined;
}
const TAGS = ["is-VUndef", "is-VNull", "is-VB", "is-VN", "is-VS", "is-VArr", "is-VFun", "is-VObj"];
// simplification by syntactically known facts; never forks
export function weakNarrow(v) {
  if (v instanceof Union) { const as = v.alts.filter((a) => known(a.g) !== false); const hit = as.find((a) => known(a.g) === true); if (hit) return weakNarrow(hit.v); return as.length === 1 ? weakNarrow(as[0].v) : as.length < v.alts.length && as.length ? new Union(as) : v; }
  if (!(v instanceof Sym)) return v;
  if (v.term.op === "ite") { const k = known(v.term.args[0]); if (k !== undefined) return weakNarrow(fromTerm(v.sort, v.term.args[k ? 1 : 2])); return v; }
  if (v.sort !== "any") return v;
  const x = v.term;
  if (known(t.is("VS", x)) === true) return mkStr(t.acc("vs", x));
  if (known(t.is("VN", x)) === true) return mkNum(t.acc("vn", x));
  if (known(t.is("VB", x)) === true) return mkBool(t.acc("vb", x));
  if (known(t.is("VUndef", x)) === true) return undefined;
  if (known(t.is("VNull", x)) === true) return null;
  return v;
}
export function freshTerm(base, sort) {
  const n = S.fresh.n; set(S.fresh, "n", n + 1);
  const nm = base + "!" + n;
  if (S.idxStack.length) return t.app(nm, S.idxStack.slice(), sort);
  return t.cst(nm, sort);
}
export function decide(term) {
  if (typeof term === "boolean") return term;
  if (term === t.T) return true;
  if (term === t.F) return false;
  if (term.op === "not") return !decide(term.args[0]);
  const k = known(term);
  if (k !== undefined) return k;
  const d = S.decider;
  if (d.pos < d.script.length) {
    const e = d.script[d.pos++];
    if (e.term !== term) throw new Error("nondeterministic replay: " + e.term + " vs " + term);
    d.log.push(e);
    pushPc(e.val ? term : t.not(term));
    return e.val;
  }
  const rt = solver.check(solver.slice([...S.pc, term]));
  let e;
  if (rt.r === "unsat") {
    e = { term, val: false, forced: true };
    if (d.checkBoth) { const rf = solver.check(solver.slice([...S.pc, t.not(term)])); if (rf.r === "unsat") throw new Infeasible(); }
  } else {
    const rf = solver.check(solver.slice([...S.pc, t.not(term)]));
    if (rf.r === "unsat") e = { term, val: true, forced: true };
    else e = { term, val: true, forced: false, alt: true };
  }
  d.pos++;
  d.script.push(e);
  d.log.push(e);
  pushPc(e.val ? term : t.not(term));
  return e.val;
}
export const newDecider = (script = []) => ({ script, pos: 0, log: [] });
let paths = 0;
export const counters = { paths: 0, regions: 0 };

// Explore all paths of thunk (a generator function returning {k, v}); merge.
// completion: {k:'ok'|'return'|'break:..'|'continue:..', v}
// A site whose outcomes cannot be merged (an await inside, host state without a merge) has to run on the enclosing
// path instead (NeedFork): if that is noticed in the first execution of the sites concerned, only the outermost
// region is redone, otherwise the unit starts over.
export function* region(site, thunk) {
  if (S.nomerge.has(site)) return yield* thunk();
  if (S.regions.length !== 1 || !S.decider) return yield* region1(site, thunk);
  const outer = S.decider, mark = S.trail.length, pcMark = S.pc.length, pos = outer.pos, logN = outer.log.length, scriptN = outer.script.length, regs = S.regions.length, rec = S.recN;
  const { idxStack, inlineAwait, sink } = S, depth = S.task.depth, idxN = idxStack.length;
  for (;;) {
    if (S.nomerge.has(site)) return yield* thunk();
    try { return yield* region1(site, thunk); }
    catch (e) {
      if (!(e instanceof NeedFork) || S.recN !== rec || e.sites.some((s) => S.mergedSites.has(s)) || e.sites.every((s) => S.nomerge.has(s))) throw e;
      rollback(mark); truncPc(pcMark);
      S.decider = outer; outer.pos = pos; outer.log.length = logN; outer.script.length = scriptN; S.regions.length = regs;
      S.idxStack = idxStack; idxStack.length = idxN; S.inlineAwait = inlineAwait; S.sink = sink; S.task.depth = depth;
      counters.redone = (counters.redone ?? 0) + 1;
      for (const s of e.sites) S.nomerge.add(s);
    }
  }
}
function* region1(site, thunk) {
  try { const r = yield* region2(site, thunk); S.mergedSites.add(site); return r; }
  catch (e) { if (!(e instanceof NeedFork)) S.mergedSites.add(site); throw e; }
}
function* region2(site, thunk) {
  counters.regions++;
  const outer = S.decider;
  const mark = S.trail.length, pcMark = S.pc.length;
  const outs = [];
  let dropped = false, firstRun = true;
  S.regions.push(site);
  const depth = S.regions.length;
  let script = [];
  try {
    for (;;) {
      const d = newDecider(script);
      S.decider = d;
      let comp;
      try { comp = yield* thunk(); }
      catch (e) {
        if (e instanceof JSThrow) comp = { k: "throw", v: e.value };
        else if (e instanceof Infeasible) comp = null;
        else throw e;
      }
      S.regions.length = depth;
      const free = d.log.filter((e) => !e.forced);
      if (firstRun && free.length === 0) {
        S.decider = outer; S.regions.pop();
        if (!comp) { rollback(mark); truncPc(pcMark); throw new Infeasible(); }
        if (comp.k === "throw") throw new JSThrow(comp.v);
        return comp;
      }
      firstRun = false;
      counters.paths++;
      if (comp) {
        const decs = free.map((e) => (e.val ? e.term : t.not(e.term)));
        const ds = new Set(d.log.map((e) => (e.val ? e.term : t.not(e.term))).flatMap((x) => (x.op === "and" ? x.args : [x])).map((x) => x.id));
        const facts = S.pc.slice(pcMark).filter((x) => !ds.has(x.id));
        const delta = new Map();
        for (let i = mark; i < S.trail.length; i += 3) {
          const o = S.trail[i], k = S.trail[i + 1];
          let m = delta.get(o); if (!m) delta.set(o, (m = new Map()));
          if (!m.has(k)) m.set(k, o[k]);
        }
        outs.push({ g: t.and(...decs), comp, facts, delta });
      } else dropped = true;
      rollback(mark); truncPc(pcMark);
      // next script
      let log = d.log;
      while (log.length && !log[log.length - 1].alt) log = log.slice(0, -1);
      if (!log.length) break;
      const last = log[log.length - 1];
      script = [...log.slice(0, -1), { term: last.term, val: false, forced: false }];
    }
  } catch (e) {
    if (!(e instanceof JSThrow) && !(e instanceof Infeasible)) { S.decider = outer; S.regions.length = depth - 1; rollback(mark); truncPc(pcMark); }
    throw e;
  }
  S.decider = outer;
  S.regions.length = depth - 1;
  if (outs.length === 0) throw new Infeasible();
  if (dropped) assume(t.or(...outs.map((o) => o.g)));
  // group by completion kind
  const groups = new Map();
  for (const o of outs) { const k = o.comp.k; if (!groups.has(k)) groups.set(k, []); groups.get(k).push(o); }
  let group;
  const gs = [...groups.values()];
  if (gs.length === 1) group = gs[0];
  else {
    for (let i = 0; i < gs.length; i++) {
      if (i === gs.length - 1) { group = gs[i]; break; }
      if (decide(t.or(...gs[i].map((o) => o.g)))) { group = gs[i]; break; }
    }
    group = group.filter((o) => known(o.g) !== false);
    if (!group.length) throw new Infeasible();
  }
  const seal = S.sealing; S.sealing = true; // replaying effects that were checked when they happened
  try { applyGroup(group, site); } finally { S.sealing = seal; }
  const comp = group.length === 1 ? group[0].comp : { k: group[0].comp.k, v: mergeValues(group.map((o) => ({ g: o.g, v: o.comp.v }))) };
  if (comp.k === "throw") throw new JSThrow(comp.v);
  return comp;
}
function applyGroup(group, site) {
  if (group.length === 1) {
    const o = group[0];
    if (o.g !== t.T) pushPc(o.g);
    for (const f of o.facts) pushPc(f);
    for (const [ob, m] of o.delta) for (const [k, v] of m) set(ob, k, v);
    return;
  }
  for (const o of group) for (const f of o.facts) pushPc(t.implies(o.g, f));
  const locs = new Map();
  for (const o of group) for (const [ob, m] of o.delta) { let s = locs.get(ob); if (!s) locs.set(ob, (s = new Set())); for (const k of m.keys()) s.add(k); }
  for (const [ob, ks] of locs) for (const k of ks) {
    const old = ob[k];
    const vals = group.map((o) => { const m = o.delta.get(ob); return { g: o.g, v: m && m.has(k) ? m.get(k) : old }; });
    set(ob, k, mergeLoc(ob, k, vals, site, old));
  }
}
export function mergeLoc(ob, k, vals, site, old) {
  const v0 = vals[0].v;
  if (vals.every((x) => x.v === v0)) return v0;
  if (ob === S.fresh) return Math.max(...vals.map((x) => x.v));
  if (ob === S.imprecise) return vals.map((x) => x.v).find((x) => x) ?? null;
  if (ob === S.insts) { const r = []; for (const x of vals) for (const e of x.v) if (!r.some((y) => y.key === e.key && y.i === e.i)) r.push(e); return r; }
  if (ob === S.univ) { const r = [...old]; for (const x of vals) for (const e of x.v) if (!old.includes(e)) r.push({ ...e, g: t.and(x.g, e.g) }); return r; }
  if (ob.hostMerge) { const r = ob.hostMerge(k, vals, old); if (r !== undefined) return r; }
  if (k === "store" || k === "mstore") {
    // objects allocated inside one outcome keep that outcome's contents
    return mergeStores(vals.map((x) => ({ g: x.g, v: x.v })));
  }
  if (k === "rope") return mergeRopes(vals);
  if (k === "v") return mergeValues(vals);
  if (ob.isKind && k === "kind") return mergeKind(vals);
  throw new NeedFork([site]);
}
const mergeKind = () => undefined;

// ---------- stores ----------
// Store: {base: null | {term,type}, ents: [ {k,g,del,v} | {bulk} ]}
export const emptyStore = { base: null, ents: [] };
export function mergeStores(vals) {
  const base = vals.find((x) => x.v)?.v.base ?? null;
  vals = vals.map((x) => ({ g: x.g, v: x.v ?? emptyStore }));
  if (vals.some((x) => x.v.base !== base)) throw new Unsupported("merge of stores with different bases");
  const lists = vals.map((x) => x.v.ents);
  let p = 0;
  while (lists.every((l) => p < l.length && l[p] === lists[0][p])) p++;
  const ents = lists[0].slice(0, p);
  const suf = lists.map((l) => l.slice(p));
  const sameKeys = suf.every((s) => s.length === suf[0].length && s.every((e, i) => !e.bulk && !suf[0][i].bulk && e.k === suf[0][i].k && e.del === suf[0][i].del && e.g === suf[0][i].g && !e.acc && !suf[0][i].acc));
  if (sameKeys) {
    for (let i = 0; i < suf[0].length; i++) ents.push({ ...suf[0][i], v: suf[0][i].del ? undefined : mergeValues(vals.map((x, j) => ({ g: x.g, v: suf[j][i].v }))) });
  } else {
    // entries identical (by identity) across all outcomes in trailing part are kept guarded
    for (let j = 0; j < suf.length; j++) for (const e of suf[j]) ents.push({ ...e, g: t.and(vals[j].g, e.g) });
  }
  return { base, ents };
}
export function mergeRopes(vals) {
  vals = vals.map((x) => ({ g: x.g, v: x.v ?? [] }));
  const lists = vals.map((x) => x.v);
  let p = 0;
  while (lists.every((l) => p < l.length && l[p] === lists[0][p])) p++;
  const out = lists[0].slice(0, p);
  const suf = lists.map((l) => l.slice(p));
  if (suf.every((s) => s.length === suf[0].length && s.every((e, i) => e.t === "e" && e.g === suf[0][i].g))) {
    for (let i = 0; i < suf[0].length; i++) out.push({ t: "e", g: suf[0][i].g, v: mergeValues(vals.map((x, j) => ({ g: x.g, v: suf[j][i].v }))) });
  } else {
    for (let j = 0; j < suf.length; j++) for (const e of suf[j]) out.push(guardSeg(e, vals[j].g));
  }
  return out;
}
export function guardSeg(e, g) {
  if (g === t.T) return e;
  if (e.t === "e") return { ...e, g: t.and(g, e.g) };
  return { ...e, g: t.and(g, e.g ?? t.T) };
}

// ---------- values ----------
export function sortOf(v) {
  if (v instanceof Sym) return v.sort;
  if (v instanceof Union) return "union";
  if (v === null) return "null";
  if (v instanceof JSymbol) return "symbol";
  switch (typeof v) { case "undefined": return "undef"; case "boolean": return "bool"; case "number": return "num"; case "string": return "str"; case "bigint": return "bigint"; default: return "obj"; }
}
export function termOf(v) { // bool num str -> term
  if (v instanceof Sym) return v.term;
  if (typeof v === "boolean") return t.bool(v);
  if (typeof v === "number") return t.real(v);
  if (typeof v === "string") return t.str(v);
  throw new Unsupported("termOf " + sortOf(v));
}
export function fromTerm(sort, term) {
  if (sort === "bool") { if (term === t.T) return true; if (term === t.F) return false; }
  else if (sort === "num") { if (term.op === "real") return term.data; if (term.op === "int") return term.data; if (term.sort === "Int") term = t.toReal(term); }
  else if (sort === "str") { if (term.op === "str") return term.data; }
  else if (sort === "any") {
    if (term === t.VUndef) return undefined;
    if (term === t.VNull) return null;
    if (term.op === "VB") return fromTerm("bool", term.args[0]);
    if (term.op === "VN") return fromTerm("num", term.args[0]);
    if (term.op === "VS") return fromTerm("str", term.args[0]);
    const k = t.knownIs.get(term.id);
    if (k === "VS") return new Sym("str", t.acc("vs", term));
    if (k === "VN") return new Sym("num", t.acc("vn", term));
    if (k === "VB") return new Sym("bool", t.acc("vb", term));
    if (k === "VUndef") return undefined;
    if (k === "VNull") return null;
    if (k === "VObj" || k === "VArr" || k === "VFun") return hooks.materialise(term, k);
    if ((term.op === "VObj" || term.op === "VArr" || term.op === "VFun") && term.args[0].op === "int" && hooks.byId.has(term.args[0].data)) return hooks.byId.get(term.args[0].data);
    if (term.op === "ite") {
      // turn ites over constructor-headed terms into unions
      const a = term.args[1], b = term.args[2];
      return mergeValues([{ g: term.args[0], v: fromTerm("any", a) }, { g: t.not(term.args[0]), v: fromTerm("any", b) }]);
    }
  }
  return new Sym(sort, term);
}
export const hooks = { materialise: null, byId: new Map(), toValObj: null };
export const mkBool = (x) => fromTerm("bool", x);
export const mkNum = (x) => fromTerm("num", x);
export const mkStr = (x) => fromTerm("str", x);
export const mkAny = (x) => fromTerm("any", x);

export function flatAlts(v, g, out) {
  if (v instanceof Union) for (const a of v.alts) { const gg = t.and(g, a.g); if (gg !== t.F) flatAlts(a.v, gg, out); }
  else out.push({ g, v });
  return out;
}
export function mergeValues(list) {
  let alts = [];
  for (const x of list) flatAlts(x.v, x.g, alts);
  alts = alts.filter((a) => a.g !== t.F);
  if (!alts.length) return undefined;
  const v0 = alts[0].v;
  if (alts.every((a) => Object.is(a.v, v0))) return v0;
  // group
  const groups = new Map();
  for (const a of alts) {
    const s = sortOf(a.v);
    const bigObj = s === "obj" || s === "symbol" || s === "bigint" ? a.v : (s === "num" && !(a.v instanceof Sym) && !Number.isFinite(a.v)) ? "nf" + a.v : s;
    if (!groups.has(bigObj)) groups.set(bigObj, []);
    groups.get(bigObj).push(a);
  }
  const out = [];
  for (const [, as] of groups) {
    const s = sortOf(as[0].v);
    const g = t.or(...as.map((a) => a.g));
    if ((s === "bool" || s === "num" || s === "str" || s === "any") && as.length > 1 && !(s === "num" && as.some((a) => typeof a.v === "number" && !Number.isFinite(a.v)))) {
      let term = termOf(as[as.length - 1].v);
      for (let i = as.length - 2; i >= 0; i--) term = t.ite(as[i].g, termOf(as[i].v), term);
      out.push({ g, v: s === "any" ? new Sym("any", term) : fromTerm(s, term) });
    } else out.push({ g, v: as[0].v });
  }
  if (out.length === 1) return out[0].v;
  return new Union(out);
}
export const iteValue = (c, a, b) => (c === t.T ? a : c === t.F ? b : mergeValues([{ g: c, v: a }, { g: t.not(c), v: b }]));
export const mapU = (v, f) => v instanceof Union ? mergeValues(v.alts.map((a) => ({ g: a.g, v: f(a.v) }))) : f(v);
export const mapUTerm = (v, f) => { // f returns a Bool term
  if (!(v instanceof Union)) return f(v);
  return t.or(...v.alts.map((a) => t.and(a.g, f(a.v))));
};

export function toVal(v) {
  if (v === undefined) return t.VUndef;
  if (v === null) return t.VNull;
  if (v instanceof Sym) switch (v.sort) {
    case "any": return v.term;
    case "bool": return t.con("VB", v.term);
    case "num": return t.con("VN", t.toReal(v.term));
    case "str": return t.con("VS", v.term);
  }
  if (v instanceof Union) {
    const as = v.alts;
    let r = toVal(as[as.length - 1].v);
    for (let i = as.length - 2; i >= 0; i--) r = t.ite(as[i].g, toVal(as[i].v), r);
    return r;
  }
  switch (typeof v) {
    case "boolean": return t.con("VB", t.bool(v));
    case "number": if (!Number.isFinite(v)) return t.con("VN", t.cst("nonfinite_" + (v !== v ? "nan" : v > 0 ? "inf" : "ninf"), "Real")); return t.con("VN", t.real(v));
    case "string": return t.con("VS", t.str(v));
    case "bigint": return t.con("VObj", t.int(-Number(v) - 1000));
  }
  if (v instanceof JSymbol) return t.con("VS", t.str(v.key));
  return hooks.toValObj(v);
}
export function truthy(v) { // -> term
  switch (sortOf(v)) {
    case "undef": case "null": return t.F;
    case "obj": case "symbol": return t.T;
    case "bigint": return t.bool(v !== 0n);
    case "bool": return termOf(v);
    case "num": if (!(v instanceof Sym)) return t.bool(!!v); return t.not(t.eq(t.toReal(v.term), t.real(0)));
    case "str": return t.not(t.eq(termOf(v), t.str("")));
    case "any": {
      const x = v.term;
      return t.not(t.or(t.is("VUndef", x), t.is("VNull", x), t.eq(x, t.con("VB", t.F)), t.eq(x, t.con("VN", t.real(0))), t.eq(x, t.con("VS", t.str("")))));
    }
    case "union": return mapUTerm(v, truthy);
  }
}
export const isNullish = (v) => {
  switch (sortOf(v)) {
    case "undef": case "null": return t.T;
    case "any": return t.or(t.is("VUndef", v.term), t.is("VNull", v.term));
    case "union": return mapUTerm(v, isNullish);
    default: return t.F;
  }
};
export function strictEq(a, b) { // -> term
  if (a instanceof Union) return mapUTerm(a, (x) => strictEq(x, b));
  if (b instanceof Union) return mapUTerm(b, (x) => strictEq(a, x));
  const sa = sortOf(a), sb = sortOf(b);
  if (!(a instanceof Sym) && !(b instanceof Sym)) {
    if (sa === "obj" && sb === "obj") {
      if (a === b) return t.T;
      if (a.symTerm && b.symTerm) return t.eq(a.symTerm, b.symTerm);
      if (a.ix && b.ix && (a.root ?? a) === (b.root ?? b)) { const x = a.args ?? a.ix, y = b.args ?? b.ix; return t.and(...x.map((e, i) => t.eq(e, y[i]))); }
      return t.F;
    }
    return t.bool(a === b);
  }
  if (sa === "any" || sb === "any") {
    if (sa === "obj" && !a.symTerm) return t.F;
    if (sb === "obj" && !b.symTerm) return t.F;
    if ((typeof a === "number" && !Number.isFinite(a)) || (typeof b === "number" && !Number.isFinite(b))) return t.F;
    return t.eq(toVal(a), toVal(b));
  }
  if (sa !== sb) return t.F;
  if (sa === "num") { if ((typeof a === "number" && !Number.isFinite(a)) || (typeof b === "number" && !Number.isFinite(b))) return t.F; return t.eq(t.toReal(termOf(a)), t.toReal(termOf(b))); }
  return t.eq(termOf(a), termOf(b));
}
export function typeOfV(v) { // returns value (string, sym or union)
  switch (sortOf(v)) {
    case "undef": return "undefined";
    case "null": return "object";
    case "bool": return "boolean";
    case "num": return "number";
    case "str": return "string";
    case "symbol": return "symbol";
    case "bigint": return "bigint";
    case "obj": return v.cls === "Function" ? "function" : "object";
    case "union": return mapU(v, typeOfV);
    case "any": {
      const x = v.term;
      const cases = [["VUndef", "undefined"], ["VB", "boolean"], ["VN", "number"], ["VS", "string"], ["VFun", "function"]];
      let r = t.str("object");
      for (const [c, n] of cases) r = t.ite(t.is(c, x), t.str(n), r);
      return mkStr(r);
    }
  }
}
