// node tools/meta.mjs : regenerate properties.jsonl and MANIFEST.json from tools/props.mjs
import fs from "node:fs";
import { props } from "./props.mjs";
const done = props.filter((p) => p.na || fs.existsSync(new URL(`../specs/${p.id}.js`, import.meta.url)));
fs.writeFileSync(new URL("../properties.jsonl", import.meta.url), done.map((p) => JSON.stringify({ id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.text }, why_tests_cant: p.why, anchors: { files: p.files, mechanism: p.mech } })).join("\n") + "\n");
const checks = done.filter((p) => !p.na).map((p) => ({ property: p.id, quick_cmd: `node check.mjs ${p.id}`, thorough_cmd: `VERIF_TIER=thorough node check.mjs ${p.id} --thorough`, technique: p.tech ?? "contract-based deductive verification: contracts over the real TypeScript source, weakest-precondition-style symbolic execution of every path of the current tree, obligations discharged by z3/cvc5; counterexamples replayed on the real code", level: "proof", level_note: p.note ?? "All obligations generated from /repo's current source on every run and discharged by SMT with no bound on inputs except where a unit's declared domain says so; concrete contract executions are a cross-check and the bounded stand-in for any unit the verifier cannot finish." }));
fs.writeFileSync(new URL("../MANIFEST.json", import.meta.url), JSON.stringify({ version: 1, setup_cmd: "node tools/setup.mjs", checks, not_applicable: done.filter((p) => p.na).map((p) => ({ property: p.id, reason: p.na })) }, null, 1) + "\n");
for (const p of done) { if (p.title.length > 80) console.log("title too long", p.id, p.title.length); const n = p.statement.split(/(?<=\.)\s+(?=[A-Z])/).length; if (n > 3) console.log("statement", p.id, n); for (const f of p.files) if (!fs.existsSync("/repo/" + f)) console.log("missing", f); }
const notes = (id) => { try { const m = JSON.parse(/\/\*META([\s\S]*?)\*\//.exec(fs.readFileSync(new URL(`../specs/${id}.js`, import.meta.url), "utf8"))[1]); return m; } catch { return {}; } };
const unitsOf = (id) => [...fs.readFileSync(new URL(`../specs/${id}.js`, import.meta.url), "utf8").matchAll(/^  (?:"([^"]+)"|([A-Za-z_]\w*)): ?(?:\{|async|\(|function)/gm)].map((m) => m[1] ?? m[2]);
let d = fs.readFileSync(new URL("./DESIGN.in.md", import.meta.url), "utf8");
d = d.replace("@@PROPS@@", () => done.map((p) => `### ${p.id} — ${p.title}\n\n` + (p.na ? `Not applicable: ${p.na}\n` : `${p.design ?? ""}\n\nContracts (\`specs/${p.id}.js\`): ${unitsOf(p.id).map((u) => "`" + u + "`").join(", ")}. Quantified over ${p.text}. ${(notes(p.id).trusted ?? []).length ? "Trusted: " + notes(p.id).trusted.join("; ") + ". " : ""}${(notes(p.id).assumptions ?? []).length ? "Assumes: " + notes(p.id).assumptions.join("; ") + ". " : ""}Why not tests: ${p.why}\n`)).join("\n"));
const kf = JSON.parse(fs.readFileSync(new URL("../known-findings.json", import.meta.url), "utf8"));
d = d.replace("@@FIXED@@", () => [...kf.fixed.map((f) => "* " + f), ...kf.findings.map((f) => `* known finding (not repaired), ${f.property}: ${f.what}`)].join("\n"));
let sd = []; try { sd = fs.readdirSync(new URL("../seeded", import.meta.url)).sort(); } catch {}
let caught = {}; try { caught = JSON.parse(fs.readFileSync(new URL("./caught.json", import.meta.url), "utf8")); } catch {}
d = d.replace("@@SEEDED@@", () => "| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n" + sd.map((s) => { const m = JSON.parse(fs.readFileSync(new URL(`../seeded/${s}/meta.json`, import.meta.url), "utf8")); return `| ${s} | ${m.property} | ${m.needs} | ${m.what_it_breaks} | ${caught[s] ?? "not run"} |`; }).join("\n"));
fs.writeFileSync(new URL("../DESIGN.md", import.meta.url), d);
