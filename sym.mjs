// usage: node sym.mjs specs/C01.js [unit-substring]   (development entry point: symbolic only)
import "./engine/builtins.mjs";
import "./engine/env.mjs";
import "./engine/missing.mjs";
import { runUnit } from "./engine/prove.mjs";
import { load, importValue } from "./engine/load.mjs";
import { stats, shutdown } from "./engine/solver.mjs";
import { JObj } from "./engine/heap.mjs";
import path from "node:path";
const file = path.resolve(process.argv[2]);
const units = load(file).getter("units")();
for (const e of units.store.ents) {
  if (process.argv[3] && !e.k.includes(process.argv[3])) continue;
  let fn = e.v, o = {};
  if (fn.cls !== "Function") { const h = fn; fn = h.store.ents.find((x) => x.k === "run").v; for (const x of h.store.ents) if (x.k !== "run" && !(x.v instanceof JObj)) o[x.k] = x.v; }
  const r = runUnit(path.basename(file, ".js") + "." + e.k, fn, o);
  console.log(r.status, e.k, `paths=${r.paths} inf=${r.infeasible} ob=${r.nProved}/${r.nOb} ms=${r.ms} restarts=${r.restarts}`, r.unsupported ?? "", r.imprecise ?? "", r.vacuous.length ? "VACUOUS " + r.vacuous : "");
  for (const x of [...r.refuted, ...r.unknowns]) console.log("   ", x.label, "refuted", x.refuted, "unknown", x.unknown, x.detail?.slice(0, 400), x.models ? JSON.stringify(x.models[0]).slice(0, 600) : "");
  if (process.env.RAW) for (const x of r.obligations.values()) console.log("     -", x.label, x.proved, x.trivial, x.refuted ?? 0, x.unknown ?? 0);
  else if (process.env.V) for (const x of r.obligations.values()) console.log("     -", x.label, x.proved, x.trivial, x.ms + "ms");
  if (process.env.V) console.log(r.touched.join(" "));
}
console.log(stats);
shutdown(); process.exit(0);
