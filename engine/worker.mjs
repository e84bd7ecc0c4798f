// Symbolic worker: node worker.mjs <spec> <out.json> <unit,unit,...>
import "./builtins.mjs";
import "./env.mjs";
import "./missing.mjs";
import { runUnit, opt } from "./prove.mjs";
import { load, loadedFiles } from "./load.mjs";
import { stats, shutdown } from "./solver.mjs";
import { JObj } from "./heap.mjs";
import fs from "node:fs";
import path from "node:path";
const [spec, out, names, tier] = process.argv.slice(2);
const want = names.split("\u0001");
const units = load(spec).getter("units")();
if (tier === "thorough") { opt.proveTimeout = 30000; opt.maxMs = 500000; opt.maxPaths = 2000; }
const res = [];
for (const e of units.store.ents) {
  if (!want.includes(e.k)) continue;
  let fn = e.v, o = {};
  if (fn.cls !== "Function") { const h = fn; fn = h.store.ents.find((x) => x.k === "run").v; for (const x of h.store.ents) if (x.k !== "run" && !(x.v instanceof JObj)) o[x.k] = x.v; }
  if (o.bounded) { res.push({ name: e.k, status: "bounded", nOb: 0, nProved: 0, obligations: [], touched: [], why: o.bounded }); continue; }
  const before = { ...stats };
  const r = runUnit(path.basename(spec, ".js") + "." + e.k, fn, o);
  res.push({ name: e.k, status: r.status, nOb: r.nOb, nProved: r.nProved, paths: r.paths, infeasible: r.infeasible, ms: r.ms, unsupported: r.unsupported, imprecise: r.imprecise, vacuous: r.vacuous, covers: [...r.covers], touched: r.touched, restarts: r.restarts,
    obligations: [...r.obligations.values()].map((x) => ({ ...x })), solverMs: stats.timeMs - before.timeMs, queries: stats.queries - before.queries });
  fs.writeFileSync(out, JSON.stringify({ res, stats, files: [...loadedFiles], partial: true }));
}
fs.writeFileSync(out, JSON.stringify({ res, stats, files: [...loadedFiles] }));
shutdown();
process.exit(0);
