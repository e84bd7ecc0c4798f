// node check.mjs <property> [--replay file] : decide one property on /repo's current tree.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { spawn } from "node:child_process";
import { bundle, mine, REPO } from "./native/build.mjs";
const VERIF = path.dirname(new URL(import.meta.url).pathname);
const id = process.argv[2];
const tier = process.env.VERIF_TIER === "thorough" || process.argv.includes("--thorough") ? "thorough" : "quick";
const seed = Number(process.env.VERIF_SEED ?? 1) || 1;
const spec = path.join(VERIF, "specs", id + ".js");
const t0 = Date.now();
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), "verif-" + id + "-"));
process.on("exit", () => { try { fs.rmSync(tmp, { recursive: true, force: true }); } catch {} });
const kids = new Set();
function run(cmd, args, timeoutMs, stuck) {
  return new Promise((res) => {
    const c = spawn(cmd, args, { stdio: ["ignore", "pipe", "pipe"], env: { ...process.env, VERIF_REPO: REPO, NODE_OPTIONS: "" }, detached: true });
    kids.add(c);
    let err = "";
    c.stderr.on("data", (d) => { if (err.length < 20000) err += d; }); c.stdout.on("data", () => {});
    const to = setTimeout(() => { try { process.kill(-c.pid, "SIGKILL"); } catch {} }, timeoutMs);
    const iv = stuck && setInterval(() => { if (stuck()) try { process.kill(-c.pid, "SIGKILL"); } catch {} }, 3000);
    c.on("close", (code) => { clearTimeout(to); clearInterval(iv); kids.delete(c); res({ code, err }); });
  });
}
const bundleFile = path.join(tmp, "bundle.mjs");
let inputs;
try { ({ inputs } = await bundle(spec, bundleFile)); }
catch (e) { console.error("cannot build the code under check: " + e.message.slice(0, 2000)); process.exit(2); }
const pool = mine(inputs);
const STUCK = 60000; // one concrete run takes milliseconds; one that takes a minute, twice, does not end
async function nativeOnce(cfg, timeout) {
  const f = path.join(tmp, "cfg" + Math.random().toString(36).slice(2) + ".json"), out = f + ".out", progress = f + ".progress";
  fs.writeFileSync(f, JSON.stringify({ seed, pool, out, progress, ...cfg }));
  const now = () => { try { return JSON.parse(fs.readFileSync(progress, "utf8")); } catch { return null; } };
  const r = await run(process.execPath, ["--no-warnings", "--max-old-space-size=3000", bundleFile, f], timeout, () => { const p = now(); return p !== null && Date.now() - p.at > STUCK; });
  try { return JSON.parse(fs.readFileSync(out, "utf8")); } catch { return { $error: "concrete run ended abnormally: code " + r.code + " " + r.err.slice(-1500), $at: now() }; }
}
async function nativeRun(cfg, timeout) {
  let r = await nativeOnce(cfg, timeout);
  const at = r.$at;
  if (!r.$error || !at) return r;
  // the run it ended in, alone: if that does not end either, the contract's termination is violated
  const mdl = at.model === undefined ? null : cfg.models[at.unit][at.model];
  const one = await nativeOnce(mdl ? { units: [at.unit], n: -1, msPerUnit: 1, models: { [at.unit]: [mdl] } } : { units: [at.unit], n: -1, msPerUnit: 1, only: at.seed }, STUCK * 2);
  if (one.$error) return { [at.unit]: { runs: 1, skips: 0, checks: 0, covers: {}, violations: [{ label: "the contract's run terminates", message: "the run did not end within " + STUCK / 1000 + " s or its memory limit, twice", inputs: mdl ?? {}, source: mdl ? "solver-model" : "seeded", seed: at.seed }] } };
  r = await nativeOnce(cfg, timeout);
  return r;
}
if (process.argv.includes("--replay")) {
  const rp = JSON.parse(fs.readFileSync(process.argv[process.argv.indexOf("--replay") + 1], "utf8"));
  const r = rp.seed !== undefined && rp.source === "seeded" ? await nativeRun({ units: [rp.unit], n: -1, ...(Object.keys(rp.inputs ?? {}).length ? {} : { only: rp.seed }), msPerUnit: 60000, models: { [rp.unit]: [rp.inputs] } }, 120000) : await nativeRun({ units: [rp.unit], n: 0, msPerUnit: 60000, models: { [rp.unit]: [rp.inputs ?? {}] } }, 120000);
  console.log(JSON.stringify(r, null, 1));
  process.exit(r[rp.unit]?.violations?.length ? 1 : 0);
}
// list units
const unitNames = [...fs.readFileSync(spec, "utf8").matchAll(/^  (?:"([^"]+)"|([A-Za-z_]\w*)): ?(?:\{|async|\(|function)/gm)].map((m) => m[1] ?? m[2]);
if (!unitNames.length) { console.error("no units in " + spec); process.exit(2); }
const nativeP = nativeRun({ n: tier === "quick" ? 400 : 8000, scale: tier === "quick" ? 1 : 15, msPerUnit: tier === "quick" ? 6000 : 60000 }, tier === "quick" ? 300000 : 3000000);
const W = Math.min(Number(process.env.VERIF_JOBS ?? 6), unitNames.length);
const groups = Array.from({ length: W }, () => []);
unitNames.forEach((u, i) => groups[i % W].push(u));
const symP = groups.map(async (g, i) => {
  const out = path.join(tmp, "sym" + i + ".json");
  const r = await run(process.execPath, ["--no-warnings", "--stack-size=60000", "--max-old-space-size=6000", path.join(VERIF, "engine/worker.mjs"), spec, out, g.join("\u0001"), tier], tier === "quick" ? 420000 : 3000000);
  let d; try { d = JSON.parse(fs.readFileSync(out, "utf8")); } catch { d = { res: [], stats: null, files: [] }; }
  for (const u of g) if (!d.res.some((x) => x.name === u)) d.res.push({ name: u, status: "unsupported", unsupported: "verifier ended early: " + r.code + " " + r.err.slice(-600), nOb: 0, nProved: 0, obligations: [], touched: [] });
  return d;
});
// a concrete failing run decides on its own: the verifier is then given one more minute only
let hurry;
nativeP.then((n) => { if (tier === "quick" && Object.entries(n).some(([k, r]) => k !== "$error" && r.violations?.length)) hurry = setTimeout(() => { for (const c of kids) try { process.kill(-c.pid, "SIGKILL"); } catch {} }, 60000); });
const sym = await Promise.all(symP);
let nat = await nativeP;
clearTimeout(hurry);
const units = sym.flatMap((d) => d.res);
// replay solver models of refuted obligations on the real code
const models = {};
for (const u of units) for (const o of u.obligations) for (const m of o.models ?? []) (models[u.name] = models[u.name] ?? []).push(m);
let nat2 = {};
if (Object.keys(models).length) nat2 = await nativeRun({ units: Object.keys(models), n: -1, msPerUnit: 20000, models }, 120000);
const errs = [nat.$error, nat2.$error].filter(Boolean);
// ---- verdict
let known = [];
try { known = JSON.parse(fs.readFileSync(path.join(VERIF, "known-findings.json"), "utf8")).findings ?? []; } catch {}
const isKnown = (unit, label) => known.find((k) => k.property === id && k.unit === unit && (k.label === label || k.label === "*"));
const viol = []; const knownHit = new Map();
const add = (v) => { const k = isKnown(v.unit, v.label); if (k) { if (!knownHit.has(k)) knownHit.set(k, v); } else viol.push(v); };
for (const [src, name] of [[nat2, "solver-model"], [nat, "seeded"]]) for (const [u, r] of Object.entries(src)) { if (u === "$error") continue; for (const v of r.violations ?? []) add({ unit: u, label: v.label, message: v.message, inputs: v.inputs, source: v.source, seed: v.seed, concrete: true }); }
for (const u of units) if (u.status === "refuted") for (const o of u.obligations) if (o.refuted) { if (!viol.some((v) => v.concrete && v.unit === u.name)) add({ unit: u.name, label: o.label, message: o.detail, inputs: o.models?.[0] ?? null, concrete: false }); }
const fns = new Set(units.flatMap((u) => u.touched));
const proved = units.filter((u) => u.status === "proved");
const notProved = units.filter((u) => u.status !== "proved");
const sum = (f) => units.reduce((n, u) => n + (f(u) || 0), 0);
const natUnits = Object.entries(nat).filter(([k]) => k !== "$error");
const backends = {}; for (const d of sym) for (const [k, v] of Object.entries(d.stats?.byBackend ?? {})) backends[k] = (backends[k] || 0) + v;
let meta = {}; try { meta = JSON.parse(/\/\*META([\s\S]*?)\*\//.exec(fs.readFileSync(spec, "utf8"))[1]); } catch {}
const evidence = {
  property: id, tier, seed, level: "proof",
  coverage: {
    obligations: sum((u) => u.nOb), discharged: sum((u) => u.nProved),
    checker_cmd: `node check.mjs ${id}`,
    trusted_base: ["z3-new 5.x / z3 4.8.12 / cvc5 1.1.2", "verification-condition generator /verif/engine", "ts.transpileModule type erasure (the extraction drops types, comments and decorators-free TypeScript syntax only)", ...(meta.trusted ?? [])],
    explanation: `contracts on ${fns.size} functions of /repo; each unit executed symbolically from the current source, every ensures/assert discharged by SMT per path; the same contracts then run natively on the real code`,
    functions_under_contract: [...fns].sort(),
    units: units.map((u) => ({ unit: u.name, status: u.status, obligations: u.nOb, discharged: u.nProved, paths: u.paths, covers: u.covers, solver_ms: u.solverMs, queries: u.queries, ms: u.ms, why: u.unsupported ?? u.imprecise ?? u.why ?? undefined, named: u.obligations.map((o) => ({ label: o.label, smt: o.proved, by_evaluation: o.trivial, refuted: o.refuted || undefined, unknown: o.unknown || undefined, detail: o.refuted || o.unknown ? String(o.detail).slice(0, 300) : undefined })) })),
    units_proved: proved.length, units_total: units.length,
    bounded_standins: notProved.map((u) => ({ unit: u.name, reason: u.unsupported ?? u.why ?? u.status, bound: `${nat[u.name]?.runs ?? 0} seeded executions` })),
    backends, solver_ms: sum((u) => u.solverMs),
    concrete_crosscheck: Object.fromEntries(natUnits.map(([k, r]) => [k, { runs: r.runs, skipped: r.skips, checks: r.checks, covers: r.covers }])),
    source_files: Object.fromEntries(sym.flatMap((d) => d.files)),
  },
  assumptions: ["JavaScript numbers are treated as mathematical reals (no NaN/Infinity/rounding) for symbolic inputs", "string lengths are related to contents only through emptiness unless a unit says otherwise", "JSON.stringify/parse, Date formatting, base64/URI encodings are uninterpreted (functional) in the proof", ...(meta.assumptions ?? [])],
  wall_s: (Date.now() - t0) / 1000, violations: viol.length, errors: errs.length ? errs : undefined,
};
fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
fs.writeFileSync(path.join(VERIF, "evidence", id + ".json"), JSON.stringify(evidence, null, 1) + "\n");
if (process.env.V || process.argv.includes("-v")) for (const u of units) { console.log(`${u.status.padEnd(11)} ${u.name}  ob ${u.nProved}/${u.nOb} paths ${u.paths} ${u.ms}ms  native ${nat[u.name]?.runs}/${nat[u.name]?.skips}skip ${nat[u.name]?.ms}ms ${u.unsupported ?? u.imprecise ?? ""} ${u.vacuous?.length ? "VACUOUS:" + u.vacuous : ""}`); for (const o of u.obligations) if (o.refuted || o.unknown) console.log("      ", o.label, "refuted", o.refuted, "unknown", o.unknown, (o.detail ?? "").slice(0, 300), o.models ? JSON.stringify(o.models[0]).slice(0, 500) : ""); for (const v of nat[u.name]?.violations ?? []) console.log("       native:", v.label, "|", v.message.slice(0, 600), JSON.stringify(v.inputs).slice(0, 800)); }
for (const [k, v] of knownHit) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
console.log(`${id}: ${proved.length}/${units.length} units proved, ${evidence.coverage.discharged}/${evidence.coverage.obligations} obligations discharged, ${natUnits.reduce((n, [, r]) => n + r.runs, 0)} concrete contract executions, ${evidence.wall_s.toFixed(1)}s`);
for (const e of errs) console.log("note: " + e.slice(0, 1500));
if (viol.length) {
  viol.sort((a, b) => (b.concrete ? 1 : 0) - (a.concrete ? 1 : 0));
  const v = viol[0];
  const dir = path.join(VERIF, "evidence", "replay"); fs.mkdirSync(dir, { recursive: true });
  const rp = path.join(dir, id + ".json");
  fs.writeFileSync(rp, JSON.stringify({ property: id, unit: v.unit, failed_obligation: v.label, source: v.source ?? "verifier", seed: v.seed, inputs: v.inputs, detail: v.message, verifier: units.find((u) => u.name === v.unit)?.obligations.filter((o) => o.refuted), replay_cmd: `node ${VERIF}/check.mjs ${id} --replay ${rp}`, all: viol.map((x) => ({ unit: x.unit, label: x.label, concrete: x.concrete, message: String(x.message).slice(0, 400) })) }, null, 1));
  console.log(`failed obligation: [${v.unit}] ${v.label}: ${String(v.message).slice(0, 400)}`);
  console.log(`VIOLATION property=${id} replay=${rp}${v.concrete ? "" : " no-failing-input-found"}`);
  process.exit(1);
}
if (nat.$error) { console.error("concrete run failed"); process.exit(2); }
process.exit(0);
