// Bundle a spec with the real /repo sources for concrete execution.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import os from "node:os";
const require = createRequire(import.meta.url);
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const ts = require("/opt/veriftools/node/node_modules/typescript");
export const REPO = process.env.VERIF_REPO || "/repo";
const VERIF = new URL("..", import.meta.url).pathname.replace(/\/$/, "");
const alias = { "@opentelemetry/api": REPO + "/packages/core/node_modules/@opentelemetry/api/build/esnext/index.js" };
// models used in concrete runs as well (components outside the repository whose behaviour the contracts fix)
export const modelled = new Set(["@opentelemetry/sdk-trace-base", "@opentelemetry/exporter-trace-otlp-http", "@opentelemetry/core", "@langchain/core/callbacks/base", "ai", "@ai-sdk/otel", "openai"]);
export async function bundle(specFile, outFile) {
  const entry = `import { units } from ${JSON.stringify(specFile)};\nimport { main } from ${JSON.stringify(VERIF + "/native/rt.js")};\nimport fs from "node:fs";\nconst cfg = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));\nmain(units, cfg).then((r) => { fs.writeFileSync(cfg.out, JSON.stringify(r)); process.exit(0); }, (e) => { fs.writeFileSync(cfg.out, JSON.stringify({ $error: String(e && e.stack) })); process.exit(0); });\n`;
  const tryFile = (p) => { for (const c of [p, p.replace(/\.js$/, ".ts"), p + ".ts", p + ".js", p + "/index.ts", p + "/index.js"]) try { if (fs.statSync(c).isFile()) return c; } catch {} return null; };
  const r = await esbuild.build({
    stdin: { contents: entry, resolveDir: VERIF + "/native", sourcefile: "entry.js", loader: "js" },
    bundle: true, platform: "node", format: "esm", target: "es2022", outfile: outFile, metafile: true, logLevel: "silent",
    banner: { js: "import { createRequire as __cr } from 'node:module'; const require = __cr(import.meta.url);" },
    plugins: [{ name: "verif", setup(b) {
      b.onResolve({ filter: /^@repo\// }, (a) => ({ path: tryFile(REPO + "/" + a.path.slice(6)) }));
      b.onResolve({ filter: /^@langfuse\/[a-z-]+$/ }, (a) => ({ path: REPO + "/packages/" + a.path.slice(10) + "/src/index.ts" }));
      b.onResolve({ filter: /^[^.]/ }, async (a) => {
        if (alias[a.path]) return { path: alias[a.path] };
        if (modelled.has(a.path)) { const f = VERIF + "/models/" + a.path.replace(/[@]/g, "").replace(/\//g, "__") + ".js"; if (fs.existsSync(f)) return { path: f }; }
        if (a.importer.startsWith(VERIF + "/") && !a.pluginData?.again && !a.path.startsWith("node:") && !a.path.startsWith("/"))
          for (const p of a.path.startsWith("@langchain/") ? ["langchain"] : ["core", "client", "otel", "tracing", "openai", "langchain", "vercel-ai-sdk"]) { const x = await b.resolve(a.path, { resolveDir: REPO + "/packages/" + p, kind: a.kind, pluginData: { again: true } }); if (!x.errors.length) return x; }
        return undefined;
      });
    } }],
  });
  const inputs = Object.keys(r.metafile.inputs).map((p) => path.resolve(p)).filter((p) => p.startsWith(REPO + "/packages/") && !p.includes("node_modules"));
  return { inputs };
}
export function mine(files) { // string and number constants of the code under check, used as input dictionary
  const strings = new Set(), numbers = new Set();
  for (const f of files) {
    if (f.includes("/api/") ) continue;
    const sf = ts.createSourceFile(f, fs.readFileSync(f, "utf8"), ts.ScriptTarget.ES2022);
    const go = (n) => { if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) { if (n.text.length <= 60 && !/^[.@]/.test(n.text)) strings.add(n.text); } else if (ts.isNumericLiteral(n)) { const x = Number(n.text); if (Math.abs(x) < 1e6) numbers.add(x); } else if (n.kind === ts.SyntaxKind.TemplateHead || n.kind === ts.SyntaxKind.TemplateMiddle || n.kind === ts.SyntaxKind.TemplateTail) { if (n.text && n.text.length < 40) strings.add(n.text); } ts.forEachChild(n, go); };
    go(sf);
  }
  return { strings: [...strings].slice(0, 600), numbers: [...numbers].slice(0, 200) };
}
