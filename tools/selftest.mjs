// Engine self-test: every assertion labelled "wrong..." must not be proved, every "right..." must not be refuted.
// Usage: node tools/selftest.mjs   (not registered as a check; guards the verifier's own soundness)
import { spawnSync } from "node:child_process";
import { readdirSync } from "node:fs";
import { dirname, join } from "node:path";
const dir = join(dirname(new URL(import.meta.url).pathname), "..");
let bad = 0;
for (const f of readdirSync(join(dir, "engine/tests")).filter((x) => x.endsWith(".js"))) {
  const r = spawnSync("node", [join(dir, "sym.mjs"), join(dir, "engine/tests", f), ...process.argv.slice(2)], { env: { ...process.env, V: "1", RAW: "1", TSCV_SELFTEST: "1" }, encoding: "utf8", timeout: 600000 });
  let unit = "";
  for (const l of r.stdout.split("\n")) {
    const u = /^(proved|refuted|unsupported|unknown|imprecise|vacuous)\s+(\S+)(.*)/.exec(l); if (u) { unit = u[2]; if (u[1] === "unsupported") console.log(f, unit, "unsupported:", u[3].replace(/.*restarts=\d+ /, "")); }
    const o = /^     - (.*) (\d+) (\d+) (\d+) (\d+)$/.exec(l); if (!o) continue;
    const [, label, , , refuted, unknown] = o;
    if (label.startsWith("wrong") && refuted === "0" && unknown === "0") { bad++; console.log("UNSOUND", f, unit, label); }
    if (label.startsWith("right") && refuted !== "0") { bad++; console.log("REFUTED", f, unit, label); }
    if (label.startsWith("right") && unknown !== "0") console.log("incomplete", f, unit, label);
  }
}
console.log(bad ? bad + " problems" : "self-test passed");
process.exit(bad ? 1 : 0);
