// sanity: node, typescript, esbuild and the solvers are present
import { execSync } from "node:child_process";
import fs from "node:fs";
for (const m of ["typescript", "esbuild"]) if (!fs.existsSync("/opt/veriftools/node/node_modules/" + m)) throw new Error("missing " + m);
for (const c of ["z3 --version", "z3-new --version", "cvc5 --version"]) console.log(execSync(c).toString().split("\n")[0]);
