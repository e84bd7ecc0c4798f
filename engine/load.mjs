// Module loader: mechanically extracts the executed program text from the working tree on every run.
// TypeScript -> (ts.transpileModule: types erased, enums/parameter properties lowered) -> syntax tree -> interpreter.
import fs from "node:fs";
import path from "node:path";
import crypto from "node:crypto";
import { ts, Scope, Cell, globals, exec, execStmts, hoist, ev, hooksI, TDZ, toPromise, propKey } from "./interp.mjs";
import { S, Unsupported, emptyStore, newDecider, JSThrow } from "./core.mjs";
import { JObj, protos, storeSet } from "./heap.mjs";
import * as t from "./terms.mjs";
const K = ts.SyntaxKind;
export const REPO = process.env.VERIF_REPO || "/repo";
export const VERIF = new URL("..", import.meta.url).pathname.replace(/\/$/, "");
export const aliases = {
  "@opentelemetry/api": REPO + "/packages/core/node_modules/@opentelemetry/api/build/esnext/index.js",
  "@ai-sdk/otel": REPO + "/packages/vercel-ai-sdk/node_modules/@ai-sdk/otel/dist/index.js",
};
export function setAliases(a) { Object.assign(aliases, a); }
const modules = new Map();
export const loadedFiles = new Map(); // repo file -> sha
function tryFile(p) {
  for (const c of [p, p.replace(/\.js$/, ".ts"), p.replace(/\.mjs$/, ".mts"), p + ".ts", p + ".js", p + "/index.ts", p + "/index.js"]) {
    try { if (fs.statSync(c).isFile()) return c; } catch {}
  }
  return null;
}
export function resolve(spec, from) {
  if (spec.startsWith("@repo/")) return tryFile(REPO + "/" + spec.slice(6));
  if (spec.startsWith("@models/")) return tryFile(VERIF + "/models/" + spec.slice(8));
  if (aliases[spec]) return tryFile(aliases[spec]);
  if (spec.startsWith(".")) return tryFile(path.resolve(path.dirname(from), spec));
  const m = /^@langfuse\/([a-z-]+)$/.exec(spec);
  if (m) return tryFile(REPO + "/packages/" + m[1] + "/src/index.ts");
  const mf = tryFile(VERIF + "/models/" + spec.replace(/^node:/, "").replace(/[@]/g, "").replace(/\//g, "__") + ".js");
  if (mf) return mf;
  // the real source of @langchain/core
  const lc = /^@langchain\/core\/([a-z/_]+)$/.exec(spec);
  if (lc) return tryFile(REPO + "/packages/langchain/node_modules/@langchain/core/dist/" + lc[1] + (lc[1].includes("/") ? ".js" : "/index.js"));
  return null;
}
class Mod {
  constructor(file) {
    this.file = file; this.exports = new Map(); this.stars = []; this.state = "new";
    const text = fs.readFileSync(file, "utf8");
    let js = text;
    if (file.startsWith(REPO + "/packages") && !file.includes("node_modules")) loadedFiles.set(path.relative(REPO, file), crypto.createHash("sha256").update(text).digest("hex").slice(0, 16));
    if (file.endsWith(".ts")) js = ts.transpileModule(text, { compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, isolatedModules: true, removeComments: true }, fileName: file }).outputText;
    if (file.endsWith(".json")) js = "const json = " + text + ";\nexport default json;";
    this.sf = ts.createSourceFile(file.replace(/\.json$/, ".json.js"), js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
    if (!file.includes("node_modules") && file.startsWith(REPO + "/")) this.sf.repoPath = path.relative(REPO, file);
    this.scope = new Scope(globals);
    this.scope.modScope = true;
    this.link();
  }
  imp(spec) {
    const f = resolve(spec, this.file);
    if (!f) return { missing: spec };
    return { file: f };
  }
  lazyFrom(spec, name) {
    const r = this.imp(spec);
    return () => {
      if (r.missing) throw new Unsupported("module not modelled: " + r.missing);
      const m = load(r.file);
      if (name === "*") return m.namespace();
      const g = m.getter(name);
      if (!g) throw new Unsupported(`no export ${name} in ${r.file}`);
      return g();
    };
  }
  link() {
    const sc = this.scope;
    const local = (n) => () => { this.evaluate(); const c = sc.vars.get(n); if (!c) return undefined; if (c.lazy) return c.lazy(); return c.v === TDZ ? undefined : c.v; };
    for (const s of this.sf.statements) {
      if (s.kind === K.ImportDeclaration) {
        const spec = s.moduleSpecifier.text, c = s.importClause;
        if (!c) continue;
        const bind = (n, name) => { const cell = sc.declare(n, undefined); cell.lazy = this.lazyFrom(spec, name); };
        if (c.name) bind(c.name.text, "default");
        if (c.namedBindings) {
          if (c.namedBindings.kind === K.NamespaceImport) bind(c.namedBindings.name.text, "*");
          else for (const e of c.namedBindings.elements) bind(e.name.text, (e.propertyName ?? e.name).text);
        }
      } else if (s.kind === K.ExportDeclaration) {
        const spec = s.moduleSpecifier?.text;
        if (!s.exportClause) this.stars.push(spec);
        else if (s.exportClause.kind === K.NamespaceExport) this.exports.set(s.exportClause.name.text, this.lazyFrom(spec, "*"));
        else for (const e of s.exportClause.elements) {
          const nm = e.name.text, src = (e.propertyName ?? e.name).text;
          this.exports.set(nm, spec ? this.lazyFrom(spec, src) : local(src));
        }
      } else if (s.kind === K.ExportAssignment) this.exports.set("default", s.expression.kind === K.Identifier ? local(s.expression.text) : local("*default*"));
      else if (s.modifiers?.some((m) => m.kind === K.ExportKeyword)) {
        const isDef = s.modifiers.some((m) => m.kind === K.DefaultKeyword);
        if (s.kind === K.VariableStatement) { const names = []; const col = (n) => { if (n.kind === K.Identifier) names.push(n.text); else for (const e of n.elements) if (e.name) col(e.name); }; for (const d of s.declarationList.declarations) col(d.name); for (const n of names) this.exports.set(n, local(n)); }
        else if (s.name) this.exports.set(isDef ? "default" : s.name.text, local(s.name.text));
        else this.exports.set("default", local("*default*"));
      }
    }
  }
  evaluate() {
    if (this.failed) throw this.failed;
    if (this.state !== "new") return;
    this.state = "running";
    const saved = S.decider, regs = S.regions, idx = S.idxStack, inl = S.inlineAwait, sink = S.sink;
    S.trailOff++; S.regions = []; S.idxStack = []; S.inlineAwait = null; S.sink = null;
    S.decider = { get pos() { throw new Unsupported("decision during module evaluation"); } };
    try {
      hoist(this.sf, this.scope, true);
      runSync(execStmts(this.sf.statements, this.scope));
    } catch (e) { this.failed = e; throw e; } finally { S.trailOff--; S.decider = saved; S.regions = regs; S.idxStack = idx; S.inlineAwait = inl; S.sink = sink; }
    this.state = "done";
  }
  getter(name, seen = new Set()) {
    if (seen.has(this)) return null; seen.add(this);
    const g = this.exports.get(name);
    if (g) return g;
    if (name === "default") return null;
    for (const sp of this.stars) { const r = this.imp(sp); if (r.missing) continue; const g2 = load(r.file).getter(name, seen); if (g2) return g2; }
    return null;
  }
  names(seen = new Set()) {
    if (seen.has(this)) return []; seen.add(this);
    const out = new Set(this.exports.keys());
    for (const sp of this.stars) { const r = this.imp(sp); if (r.missing) continue; for (const n of load(r.file).names(seen)) if (n !== "default") out.add(n); }
    return [...out];
  }
  namespace() {
    if (this.ns) return this.ns;
    const o = new JObj("Object", null);
    o.exotic = { get: (k) => { if (typeof k !== "string") throw new Unsupported("symbolic key on module namespace"); const g = this.getter(k); return g ? { has: t.T, val: g() } : null; }, entries: () => this.names().map((n) => [n, this.getter(n)()]) };
    return (this.ns = o);
  }
}
export function load(file) {
  let m = modules.get(file);
  if (!m) { m = new Mod(file); modules.set(file, m); }
  return m;
}
export function runSync(gen) {
  let r = gen.next();
  while (!r.done) throw new Unsupported("await during module evaluation");
  return r.value;
}
export function importValue(spec, name) {
  const f = resolve(spec, VERIF + "/x.js");
  if (!f) throw new Error("cannot resolve " + spec);
  const g = load(f).getter(name);
  return g ? g() : undefined;
}
hooksI.dynamicImport = function* (n, sc) {
  const spec = yield* ev(n, sc);
  const from = n.getSourceFile().fileName;
  const f = resolve(spec, from);
  if (!f) throw new Unsupported("dynamic import of " + spec);
  return yield* toPromise(load(f).namespace());
};
