// Synchronous SMT solver processes over FIFOs.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { spawn, execFileSync, spawnSync } from "node:child_process";
import * as t from "./terms.mjs";
import { quickSat, stats as qstats } from "./quick.mjs";

export const stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, timeMs: 0, cacheHits: 0, fallbacks: 0, byBackend: {} };
const PRELUDE = `(set-option :produce-models true)
(declare-datatypes ((Val 0)) (((VUndef) (VNull) (VB (vb Bool)) (VN (vn Real)) (VS (vs String)) (VArr (va Int)) (VFun (vf Int)) (VObj (vo Int)))))
`;
const sleepArr = new Int32Array(new SharedArrayBuffer(4));
const sleep = (ms) => Atomics.wait(sleepArr, 0, 0, ms);

export class Emitter {
  constructor(write) { this.write = write; this.done = new Map(); this.decl = new Set(); }
  ref(x) {
    const r = this.done.get(x.id);
    if (r) return r;
    // iterative post-order
    const stack = [x];
    while (stack.length) {
      const y = stack[stack.length - 1];
      if (this.done.has(y.id)) { stack.pop(); continue; }
      let ready = true;
      for (const a of y.args) if (!this.done.has(a.id)) { stack.push(a); ready = false; }
      if (!ready) continue;
      stack.pop();
      this.done.set(y.id, this.emit(y));
    }
    return this.done.get(x.id);
  }
  emit(x) {
    switch (x.op) {
      case "true": case "false": return x.op;
      case "int": return x.data < 0 ? `(- ${-x.data})` : String(x.data);
      case "real": return t.smtReal(x.data);
      case "str": return t.smtStr(x.data);
      case "raw": return x.data;
      case "VUndef": case "VNull": return x.op;
      case "const": {
        const n = t.symName(x.data);
        if (!this.decl.has(n)) { this.decl.add(n); this.write(`(declare-const ${n} ${x.sort})\n`); }
        return n;
      }
    }
    const as = x.args.map((a) => this.done.get(a.id));
    let body;
    if (x.op.startsWith("app:")) {
      const n = t.symName(x.op.slice(4));
      const sig = n + "/" + x.args.map((a) => a.sort).join(",") + ">" + x.sort;
      if (!this.decl.has(sig)) { this.decl.add(sig); this.write(`(declare-fun ${n} (${x.args.map((a) => a.sort).join(" ")}) ${x.sort})\n`); }
      body = as.length ? `(${n} ${as.join(" ")})` : n;
    } else if (x.op.startsWith("is-")) body = `((_ is ${x.op.slice(3)}) ${as[0]})`;
    else if (x.op === "str.len" && opts.strlen === "abstract") {
      if (!this.decl.has("slen")) { this.decl.add("slen"); this.write("(declare-fun slen (String) Int)\n"); }
      body = `(slen ${as[0]})`;
      this.write(`(assert (>= ${body} 0))\n(assert (= (= ${body} 0) (= ${as[0]} "")))\n`);
    }
    else if (x.op === "rawq") body = x.data.replace(/\$(\d+)/g, (_, i) => as[+i]);
    else body = `(${x.op} ${as.join(" ")})`;
    const nm = "t!" + x.id;
    this.write(`(define-fun ${nm} () ${x.sort} ${body})\n`);
    return nm;
  }
}

class Proc {
  constructor(cmd, args, name) {
    this.name = name;
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), "tscv-"));
    const fi = path.join(dir, "i"), fo = path.join(dir, "o");
    execFileSync("mkfifo", [fi, fo]);
    this.child = spawn("sh", ["-c", `exec "$0" "$@" < ${fi} > ${fo} 2>/dev/null`, cmd, ...args], { stdio: "ignore" });
    this.child.unref();
    this.child.on("error", () => {});
    this.wfd = fs.openSync(fi, "w");
    this.rfd = fs.openSync(fo, fs.constants.O_RDONLY | fs.constants.O_NONBLOCK);
    fs.rmSync(dir, { recursive: true, force: true });
    this.buf = ""; this.out = "";
    this.em = new Emitter((s) => { this.out += s; });
    this.out += PRELUDE;
    this.chunk = Buffer.alloc(65536);
  }
  flush() {
    let b = Buffer.from(this.out); this.out = "";
    let off = 0;
    while (off < b.length) {
      try { off += fs.writeSync(this.wfd, b, off, Math.min(b.length - off, 32768)); }
      catch (e) { if (e.code === "EAGAIN") { sleep(1); continue; } throw e; }
    }
  }
  readLine(deadline) {
    let spins = 0;
    for (;;) {
      const i = this.buf.indexOf("\n");
      if (i >= 0) { const l = this.buf.slice(0, i); this.buf = this.buf.slice(i + 1); return l; }
      let n = 0;
      try { n = fs.readSync(this.rfd, this.chunk, 0, this.chunk.length, null); }
      catch (e) { if (e.code !== "EAGAIN") throw e; n = -1; }
      if (n > 0) { this.buf += this.chunk.toString("utf8", 0, n); continue; }
      if (Date.now() > deadline) return null;
      if (n === 0 && spins > 2000) return null;
      spins++;
      sleep(spins < 20 ? 0.2 : 1);
    }
  }
  readSexp(deadline) {
    let s = "";
    for (;;) {
      const l = this.readLine(deadline);
      if (l === null) return s;
      s += l + "\n";
      let d = 0, q = false;
      for (const c of s) { if (c === '"') q = !q; else if (!q) { if (c === "(") d++; else if (c === ")") d--; } }
      if (d <= 0 && !q) return s;
    }
  }
  kill() {
    try { process.kill(this.child.pid, "SIGKILL"); } catch {}
    try { fs.closeSync(this.wfd); } catch {}
    try { fs.closeSync(this.rfd); } catch {}
  }
}

const BACKENDS = {
  z3: ["z3", ["-in", "-smt2"]],
  "z3-new": ["z3-new", ["-in", "-smt2"]],
};
let procs = {};
let nq = {};
function getProc(name) {
  if (procs[name] && nq[name] > 3000) { procs[name].kill(); procs[name] = null; }
  if (!procs[name]) { const [c, a] = BACKENDS[name]; procs[name] = new Proc(c, a, name); nq[name] = 0; }
  nq[name]++;
  return procs[name];
}
export function shutdown() { for (const k of Object.keys(procs)) procs[k]?.kill(); procs = {}; }
process.on("exit", shutdown);

export function setStrlen(mode) { if (opts.strlen !== mode) { shutdown(); cache.clear(); opts.strlen = mode; } }
export const opts = { strlen: "abstract", main: "z3-new", feasTimeout: 1500, proveTimeout: 6000 };
// terms: array of Bool terms; returns {r:'sat'|'unsat'|'unknown', values?}
function ask(name, terms, timeout, evals) {
  const t0 = Date.now();
  let p;
  try {
    p = getProc(name);
    const refs = terms.map((x) => p.em.ref(x));
    const evs = Array.isArray(evals) ? evals.map((x) => p.em.ref(x)) : [];
    p.out += `(push 1)\n(set-option :timeout ${timeout})\n` + refs.map((r) => `(assert ${r})`).join("\n") + `\n(check-sat)\n`;
    p.flush();
    let line = p.readLine(Date.now() + timeout * 2 + 3000);
    if (line !== null && line.startsWith("(error")) { // an ill-formed query must never be taken for an answer
      if (process.env.TSCV_DEBUG) console.error(name, line);
      stats.lastError = line; stats.errors = (stats.errors || 0) + 1; p.kill(); procs[name] = null;
      return { r: "unknown", why: "solver error " + line };
    }
    stats.byBackend[name] = (stats.byBackend[name] || 0) + 1;
    stats.timeMs += Date.now() - t0;
    if (line === null) { p.kill(); procs[name] = null; return { r: "unknown", why: "hard timeout" }; }
    const r = line.trim();
    const res = { r: r === "sat" || r === "unsat" ? r : "unknown", why: r, backend: name };
    if (res.r === "sat" && typeof evals === "function") {
      const dl = Date.now() + 20000;
      const savedDone = new Map(p.em.done), savedDecl = new Set(p.em.decl); // definitions made inside the push are popped
      res.model = evals((term) => { if (Date.now() > dl) return null; const e = p.em.ref(term); p.out += `(eval ${e} :completion true)\n`; p.flush(); return p.readSexp(Date.now() + 5000).trim(); });
      p.em.done = savedDone; p.em.decl = savedDecl;
    } else if (res.r === "sat" && evals) {
      res.values = [];
      for (const e of evs) {
        p.out += `(eval ${e} :completion true)\n`;
        p.flush();
        res.values.push(p.readSexp(Date.now() + 5000).trim());
      }
    }
    p.out += "(pop 1)\n";
    return res;
  } catch (e) {
    if (p) { p.kill(); procs[name] = null; }
    stats.lastError = String(e && e.message);
    if (process.env.TSCV_DEBUG) console.error("solver", name, e);
    return { r: "unknown", why: String(e) };
  }
}
function askCvc5(terms, timeout) {
  const t0 = Date.now();
  let out = "(set-logic ALL)\n" + PRELUDE;
  const em = new Emitter((s) => { out += s; });
  const refs = terms.map((x) => em.ref(x));
  out += refs.map((r) => `(assert ${r})`).join("\n") + "\n(check-sat)\n";
  const r = spawnSync("cvc5", ["--lang=smt2", "--strings-exp", `--tlimit=${timeout}`], { input: out, encoding: "utf8", timeout: timeout + 5000 });
  stats.timeMs += Date.now() - t0;
  stats.byBackend.cvc5 = (stats.byBackend.cvc5 || 0) + 1;
  const l = (r.stdout || "").trim().split("\n").pop();
  return { r: l === "sat" || l === "unsat" ? l : "unknown", why: l + " " + (r.stderr || "").slice(0, 200), backend: "cvc5" };
}
// answers to feasibility questions never change once given (replays have to take the same path), so the
// portfolio's stronger answers are kept apart
const cache = new Map(), strong = new Map();
// Constants (and per-index constants) a term mentions; two terms without a common one are independent
// up to congruence of shared functions.
const symMemo = new Map();
function symsOf(x) {
  let r = symMemo.get(x.id);
  if (r) return r;
  r = new Set();
  if (x.op === "const") r.add(x.data);
  else if (x.op.startsWith("app:") && x.op.includes("!")) r.add(x.op);
  for (const a of x.args) for (const y of symsOf(a)) r.add(y);
  symMemo.set(x.id, r); return r;
}
// The terms connected to the last one. Dropping the others keeps "unsat" sound; a "sat" answer may be
// too generous, which only adds paths (refutations are always confirmed on the full set).
export function slice(terms) {
  const goal = terms[terms.length - 1], cone = new Set(symsOf(goal));
  if (!cone.size) return terms;
  let rest = terms.slice(0, -1), out = [], ch = true;
  while (ch) {
    ch = false; const next = [];
    for (const x of rest) {
      const q = symsOf(x); let hit = q.size === 0;
      if (!hit) for (const y of q) if (cone.has(y)) { hit = true; break; }
      if (hit) { out.push(x); for (const y of q) if (!cone.has(y)) { cone.add(y); ch = true; } } else next.push(x);
    }
    rest = next;
  }
  if (!rest.length) return terms;
  stats.sliced = (stats.sliced || 0) + 1;
  out.push(goal); return out;
}
export function check(terms, { timeout = opts.feasTimeout, evals = null, portfolio = false } = {}) {
  const ts = [];
  const seen = new Set();
  for (const x of terms) {
    if (x === t.T || seen.has(x.id)) continue;
    if (x === t.F) return { r: "unsat", backend: "simplifier" };
    if (seen.has(t.not(x).id)) return { r: "unsat", backend: "simplifier" };
    seen.add(x.id); ts.push(x);
  }
  if (ts.length === 0 && !evals) return { r: "sat" };
  const key = ts.map((x) => x.id).sort((a, b) => a - b).join(",");
  if (!evals) {
    let c = portfolio ? strong.get(key) : cache.get(key);
    if (!c) {
      const o = portfolio ? cache.get(key) : strong.get(key);
      if (o && o.r !== "unknown") { c = o; (portfolio ? strong : cache).set(key, o); }
    }
    if (c) { stats.cacheHits++; return c; }
  }
  if (!portfolio && !evals && !process.env.TSCV_NOQUICK && quickSat(ts)) { const r = { r: "sat", backend: "witness" }; stats.witness = (stats.witness || 0) + 1; cache.set(key, r); return r; }
  stats.queries++;
  stats.quick = qstats;
  let r = ask(opts.main, ts, portfolio ? Math.min(1500, timeout) : timeout, evals);
  if (r.r === "unknown" && portfolio) {
    stats.fallbacks++;
    const other = opts.main === "z3" ? "z3-new" : "z3";
    for (const f of [() => askCvc5(ts, Math.min(2500, timeout)), () => ask(other, ts, Math.min(2000, timeout), evals), () => askCvc5(ts, timeout * 2), () => ask(opts.main, ts, timeout, evals), () => ask(other, ts, timeout, evals)]) {
      const r2 = f();
      if (r2.r !== "unknown") { r = r2; break; }
    }
  }
  if (process.env.TSCV_SLOW && r.r === "unknown") console.error("SLOW", r.r, ts.map((x) => t.show(x)).join("\n   "));
  stats[r.r]++;
  if (!evals) (portfolio ? strong : cache).set(key, r);
  return r;
}
