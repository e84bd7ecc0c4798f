/*META {"trusted":["API client method datasetRunItems.create, score.create, score.flush and getTraceUrl of the client (harness stubs; score delivery is C16, trace urls are C22)","SHA-256 digest (uninterpreted in the prover for unknown contents)"],"assumptions":["histories in unit schedules have up to 4 items (every completion order, every outcome up to 3 items) under the concurrency limits 1, 2, 3 and the default"]} */
import { oddValues } from "./lib/odd.js";
import { ExperimentManager } from "@repo/packages/client/src/experiment/ExperimentManager.ts";
import { RunnerContext, RegressionError } from "@repo/packages/client/src/experiment/RunnerContext.ts";
import { createEvaluatorFromAutoevals } from "@repo/packages/client/src/experiment/adapters.ts";
import { getPropagatedAttributesFromContext } from "@repo/packages/core/src/propagation.ts";
import { setupOtel, trace, context } from "./lib/otel.js";
function mk($, o = {}) {
  const h = { p: setupOtel({}), scores: [], links: [], flushes: 0, unflushed: 0 };
  h.client = {
    api: { datasetRunItems: { create: async (b) => { h.links.push(b); if (o.linkFails) throw new Error("link"); return { datasetRunId: "run-id" }; } } },
    score: { create: (s) => { h.scores.push(s); h.unflushed++; }, flush: async () => { await null; h.flushes++; h.unflushed = 0; } },
    getTraceUrl: async (id) => `https://host/project/p1/traces/${id}`,
  };
  h.m = new ExperimentManager({ langfuseClient: h.client });
  return h;
}
const A = (s, k) => s.attributes["langfuse." + k];
export const units = {
  one: async ($, T) => {
    const sv = $.in("sv", T.str), q = $.in("q", T.str), k = $.in("k", T.strOf({ nonEmpty: true })), k2 = $.in("k2", T.strOf({ nonEmpty: true })), out = $.in("out", T.or(T.str, T.num, T.nul)), v = $.in("v", T.num), name = $.in("name", T.strOf({ nonEmpty: true }));
    for (const [input, expected, md, xmd, desc] of [[sv, undefined, undefined, undefined, undefined], [{ q }, null, { k }, undefined, "d"], [5, sv, undefined, { k2 }, undefined], [null, { q }, { k }, { k2 }, "d"], [[q], 0, {}, { k2 }, ""], ["", false, { k, n: 1 }, {}, "x"]]) {
    const h = mk($);
    const item = { input, expectedOutput: expected, metadata: md };
    let arg, evArg, inTask, active, scoreCtx;
    const r = await h.m.run({ name, runName: "r1", description: desc, metadata: xmd, data: [item], task: async (i) => { arg = i; active = trace.getActiveSpan(); inTask = getPropagatedAttributesFromContext(context.active()); return out; }, evaluators: [async (p) => { evArg = p; return { name: "e", value: v }; }] });
    $.assert("the task gets the item", arg === item);
    $.same("the evaluator gets input, output, expected output and metadata", evArg, { input, output: out, expectedOutput: expected, metadata: md });
    $.assert("one span, ended, is active during the task", h.p.spans.length === 1 && h.p.spans[0] === active && active.endCount === 1 && active.writesAfterEnd === 0);
    const s = active, { traceId, spanId } = s.spanContext();
    $.same("one result with output, evaluation, trace and item", [r.itemResults.length, r.itemResults[0].output, r.itemResults[0].evaluations, r.itemResults[0].traceId, r.itemResults[0].datasetRunId], [1, out, [{ name: "e", value: v }], traceId, undefined]);
    $.assert("its item is the given one", r.itemResults[0].item === item);
    $.same("the evaluation is a score of the item's observation", h.scores, [{ traceId, observationId: spanId, name: "e", value: v }]);
    $.assert("not linked, no run", h.links.length === 0 && r.datasetRunId === undefined && r.datasetRunUrl === undefined && typeof r.experimentId === "string" && r.experimentId.length === 16);
    $.assert("run name", r.runName === "r1");
    $.assert("scores are flushed before the run resolves", h.flushes >= 1 && h.unflushed === 0);
    const j = (x) => (typeof x === "string" ? x : JSON.stringify(x));
    $.assert("span input and output", A(s, "observation.input") === (input === null ? undefined : j(input)) && A(s, "observation.output") === (out === null ? undefined : j(out)));
    $.assert("experiment attributes of the item span", A(s, "environment") === "sdk-experiment" && A(s, "experiment.description") === (desc === "" ? undefined : desc) && A(s, "experiment.item.expected_output") === (expected === undefined || expected === null || expected === "" ? undefined : j(expected)));
    $.assert("experiment attributes for child spans", inTask["langfuse.experiment.id"] === r.experimentId && inTask["langfuse.experiment.name"] === "r1" && inTask["langfuse.experiment.item.root_observation_id"] === spanId && inTask["langfuse.experiment.dataset.id"] === undefined && inTask["langfuse.experiment.item.metadata"] === (md === undefined ? undefined : JSON.stringify(md)) && inTask["langfuse.experiment.metadata"] === (xmd === undefined ? undefined : JSON.stringify(xmd)) && typeof inTask["langfuse.experiment.item.id"] === "string");
    $.assert("metadata of the span", A(s, "observation.metadata.experiment_name") === name && A(s, "observation.metadata.experiment_run_name") === "r1" && A(s, "observation.metadata.k") === (md === undefined ? undefined : md.k) && A(s, "observation.metadata.k2") === (xmd === undefined ? undefined : xmd.k2) && A(s, "observation.metadata.dataset_id") === undefined);
    }
  },
  dataset: async ($, T) => {
    const linkFails = $.in("linkFails", T.bool), h = mk($, { linkFails }), id = $.in("id", T.strOf({ nonEmpty: true })), ds = $.in("ds", T.strOf({ nonEmpty: true })), desc = $.in("desc", T.opt(T.str)), version = $.in("version", T.opt(T.strOf({ nonEmpty: true }))), md = $.in("md", T.opt(T.obj({ a: T.str }))), v = $.in("v", T.num);
    let inTask;
    const cfg = { name: "n", runName: "r", description: desc, metadata: md, data: [{ id, datasetId: ds, input: "i" }], task: async () => { inTask = getPropagatedAttributesFromContext(context.active()); return "o"; }, evaluators: [async () => [{ name: "a", value: v }, { name: "b", value: 2 }]], runEvaluators: [async ({ itemResults }) => ({ name: "re", value: itemResults.length })], datasetVersion: version };
    const r = await h.m.run(cfg);
    const s = h.p.spans[0], { traceId, spanId } = s.spanContext();
    $.assert("the item is linked once to the run", h.links.length === 1 && h.links[0].runName === "r" && h.links[0].datasetItemId === id && h.links[0].traceId === traceId && h.links[0].observationId === spanId && h.links[0].runDescription === desc && h.links[0].datasetVersion === version);
    $.same("with the experiment's metadata", h.links[0].metadata, md);
    $.assert("a failing link does not fail the item", r.itemResults.length === 1 && r.itemResults[0].output === "o");
    $.assert("run id", r.datasetRunId === (linkFails ? undefined : "run-id") && r.itemResults[0].datasetRunId === r.datasetRunId && (linkFails ? r.experimentId.length === 16 : r.experimentId === "run-id"));
    $.assert("run url", r.datasetRunUrl === (linkFails ? undefined : `https://host/project/p1/datasets/${ds}/runs/run-id`));
    $.assert("child spans know experiment, dataset and item", inTask["langfuse.experiment.id"] === r.experimentId && inTask["langfuse.experiment.dataset.id"] === ds && inTask["langfuse.experiment.item.id"] === id);
    $.assert("the span's metadata names dataset and item", A(s, "observation.metadata.dataset_id") === ds && A(s, "observation.metadata.dataset_item_id") === id);
    $.same("run evaluations", r.runEvaluations, [{ name: "re", value: 1 }]);
    const item = [{ traceId, observationId: spanId, name: "a", value: v }, { traceId, observationId: spanId, name: "b", value: 2 }];
    $.same("run evaluations are scores of the run, item evaluations of the item", h.scores, linkFails ? item : [...item, { datasetRunId: "run-id", name: "re", value: 1 }]);
    $.assert("flushed", h.unflushed === 0 && h.flushes >= 1);
  },
  // three dataset items: every subset whose link fails, every subset whose task fails, with every kind of run evaluator
  datasetRun: async ($, T) => {
    const v = $.in("v", T.num), HOW = ["one", "many", "none", "reject", "throw"];
    for (let lf = 0; lf < 8; lf++) for (let tf = 0; tf < 8; tf++) {
      const h = mk($), data = [0, 1, 2].map((i) => ({ id: "item-" + i, datasetId: "ds", input: "i" + i })), exp = [], how = [HOW[(lf + tf) % 5], HOW[(lf * 2 + tf + 1) % 5], "one"];
      h.client.api.datasetRunItems.create = async (b) => { h.links.push(b); if ((lf >> h.itemOf(b)) & 1) throw new Error("link"); return { datasetRunId: "run-id" }; };
      h.itemOf = (b) => data.findIndex((d) => d.id === b.datasetItemId);
      const runEvaluators = how.map((k, i) => { const e = { name: "re" + i, value: v, comment: "c" };
        if (k === "one") exp.push(e); if (k === "many") exp.push(e, { name: "x" + i, value: 1 });
        return k === "throw" ? () => { throw new Error("ev"); } : async () => { if (k === "reject") throw new Error("ev"); return k === "one" ? e : k === "many" ? [e, { name: "x" + i, value: 1 }] : []; }; });
      const r = await h.m.run({ name: "n", runName: "r", maxConcurrency: 1 + (lf % 3), data, task: async (it) => { if ((tf >> data.indexOf(it)) & 1) throw new Error("task"); return "o" + data.indexOf(it); }, runEvaluators });
      const ok = [0, 1, 2].filter((i) => !((tf >> i) & 1)), linked = ok.filter((i) => !((lf >> i) & 1));
      $.same("the items that succeed are kept, linked or not, each with its own run", r.itemResults.map((x) => [x.output, x.datasetRunId]), ok.map((i) => ["o" + i, (lf >> i) & 1 ? undefined : "run-id"]));
      $.assert("every item is linked once, with its own trace", h.links.length === 3 && [0, 1, 2].every((i) => h.links.filter((b) => b.datasetItemId === "item-" + i && b.runName === "r").length === 1) && r.itemResults.every((x, k) => h.links.some((b) => b.datasetItemId === "item-" + ok[k] && b.traceId === x.traceId)));
      $.same("run evaluations of every evaluator that succeeds", r.runEvaluations, exp);
      if (linked.length > 0) {
        $.assert("the run is that of any linked item", r.datasetRunId === "run-id" && r.experimentId === "run-id" && r.datasetRunUrl === "https://host/project/p1/datasets/ds/runs/run-id");
        $.same("every run evaluation is a score of the run", h.scores, exp.map((e) => ({ datasetRunId: "run-id", ...e })));
      } else if (lf === 7) $.assert("without any link there is no run and no run score", r.datasetRunId === undefined && r.datasetRunUrl === undefined && h.scores.length === 0);
      $.assert("flushed", h.unflushed === 0 && h.flushes >= 1);
    }
  },
  // every completion order of up to 4 items, with every outcome of up to 3 (4 items: two outcome patterns), under every concurrency limit
  schedules: async ($, T) => {
    for (const n of [0, 1, 2, 3, 4]) for (const max of [1, 2, 3, undefined]) {
      const cap = Math.min(max ?? 50, n);
      let orders = [[]]; // choices of the running task to finish next
      for (let k = 0; k < n; k++) { const next = []; for (const o of orders) for (let w = 0; w < Math.min(cap, n - k); w++) next.push([...o, w]); orders = next; }
      for (const order of orders) for (let bits = 0; bits < 1 << n; bits++) {
        if (n === 4 && bits !== 6 && bits !== 13) continue;
        const h = mk($), data = [], running = []; let peak = 0, started = 0, resolved = false, bad = false;
        for (let i = 0; i < n; i++) data.push({ input: "in" + i });
        const p = h.m.run({ name: "n", ...(max === undefined ? {} : { maxConcurrency: max }), data, task: (it) => { if (it !== data[started]) bad = true; started++; const d = $.deferred(); running.push({ d, i: data.indexOf(it) }); if (running.length > peak) peak = running.length; return d.promise; } }).then((r) => { resolved = true; return r; });
        await $.drain();
        for (let k = 0; k < n; k++) {
          $.assert("as many tasks run as the limit and the remaining items allow", running.length === Math.min(cap, n - k));
          $.assert("not resolved before every item is done", !resolved);
          const t = running.splice(order[k], 1)[0];
          if ((bits >> t.i) & 1) t.d.resolve("out" + t.i); else t.d.reject(new Error("task"));
          await $.drain();
        }
        $.assert("resolves once all are done", resolved);
        const r = await p, exp = [];
        for (let i = 0; i < n; i++) if ((bits >> i) & 1) exp.push(i);
        $.assert("items start in order, each once, at most the limit at a time", !bad && started === n && peak <= cap);
        $.assert("results of exactly the items that succeeded, in data order", r.itemResults.length === exp.length && exp.every((i, k) => r.itemResults[k].output === "out" + i && r.itemResults[k].item === data[i]));
        $.assert("every item's span is ended once", h.p.spans.length === n && h.p.spans.every((s) => s.endCount === 1));
      }
    }
  },
  many: { run: async ($, T) => {
    const h = mk($), n = 53, running = []; let peak = 0;
    const data = Array.from({ length: n }, (_, i) => ({ input: i }));
    const p = h.m.run({ name: "n", data, task: (it) => { const d = $.deferred(); running.push({ d, it }); if (running.length > peak) peak = running.length; return d.promise; } });
    await $.drain();
    $.assert("at most 50 at a time by default", running.length === 50);
    for (let k = 0; k < n; k++) { const t = running.pop(); t.d.resolve(t.it.input); await $.drain(); }
    const r = await p;
    $.assert("all items in order", peak === 50 && r.itemResults.length === n && r.itemResults.every((x, i) => x.output === i));
  } },
  anyThrown: async ($, T) => {
    for (const err of oddValues()) for (const sync of [false, true]) {
      const h = mk($), data = [0, 1, 2].map((i) => ({ input: "i" + i }));
      const r = await h.m.run({ name: "n", data, task: (it) => { if (it === data[1]) { if (sync) throw err; return Promise.reject(err); } return Promise.resolve("o" + data.indexOf(it)); }, evaluators: [async () => ({ name: "e", value: 1 }), async () => { throw err; }], runEvaluators: [async () => { throw err; }, async () => ({ name: "re", value: 1 })] });
      $.same("whatever an item, evaluator or run evaluator throws, the others are kept", [r.itemResults.map((x) => x.output), r.itemResults.map((x) => x.evaluations.length), r.runEvaluations.length], [["o0", "o2"], [1, 1], 1]);
      $.assert("and all spans end", h.p.spans.length === 3 && h.p.spans.every((s) => s.endCount === 1) && h.unflushed === 0);
    }
  },
  failures: async ($, T) => {
    for (const kind of ["reject", "throw", "noInput", "value", "string"]) for (const at of [0, 1, 2]) {
    const h = mk($);
    const data = [0, 1, 2].map((i) => ({ input: "i" + i })); if (kind === "noInput") data[at] = {};
    const r = await h.m.run({ name: "n", data, task: (it) => {
      if (it === data[at]) { if (kind === "throw") throw new Error("t"); if (kind === "reject") return Promise.reject(new Error("t")); if (kind === "string") return Promise.reject("t"); if (kind === "value") return 5; }
      return Promise.resolve("o" + data.indexOf(it));
    }, evaluators: [async () => ({ name: "e", value: 1 })] });
    const exp = []; for (let i = 0; i < 3; i++) if (i !== at) exp.push("o" + i); else if (kind === "value") exp.push(5);
    $.same("a failing item is skipped, the others are kept", r.itemResults.map((x) => x.output), exp);
    $.assert("and only successful items are scored", h.scores.length === exp.length);
    $.assert("all spans end, the failed one in error", h.p.spans.every((s) => s.endCount === 1) && (kind === "value" || h.p.spans[at].statuses.some((x) => x.code === 2)));
    $.assert("flushed", h.unflushed === 0);
    }
  },
  evaluators: async ($, T) => {
    const v = $.in("v", T.num), HOW = ["one", "many", "none", "reject", "throw"];
    for (const a of HOW) for (const b of HOW) {
    const how = [a, b, "one"], exp = [], h = mk($);
    const evaluators = how.map((k, i) => { const e = { name: "e" + i, value: v, comment: "c" };
      if (k === "one") exp.push(e); if (k === "many") exp.push(e, { name: "x" + i, value: "s" });
      return k === "throw" ? () => { throw new Error("ev"); } : async () => { if (k === "reject") throw new Error("ev"); return k === "one" ? e : k === "many" ? [e, { name: "x" + i, value: "s" }] : []; }; });
    const r = await h.m.run({ name: "n", data: [{ input: 1 }], task: async () => "o", evaluators, runEvaluators: evaluators });
    const { traceId, spanId } = h.p.spans[0].spanContext();
    $.same("the evaluations of all evaluators that succeed, in order", r.itemResults[0].evaluations, exp);
    $.same("each as a score of the item", h.scores, exp.map((e) => ({ traceId, observationId: spanId, ...e })));
    $.same("likewise for run evaluators", r.runEvaluations, exp);
    $.assert("flushed", h.unflushed === 0);
    }
  },
  manyEvaluations: async ($, T) => {
    const v = $.in("v", T.num), h = mk($);
    const exp = Array.from({ length: 120 }, (_, i) => ({ name: "e" + i, value: v }));
    const r = await h.m.run({ name: "n", data: [{ input: 1 }], task: async () => "o", evaluators: [async () => exp], runEvaluators: [async () => exp] });
    $.assert("an evaluator may return any number of evaluations", r.itemResults[0].evaluations.length === 120 && r.runEvaluations.length === 120 && h.scores.length === 120);
    $.assert("all in order", exp.every((e, i) => r.itemResults[0].evaluations[i].name === e.name && h.scores[i].name === e.name && h.scores[i].value === v && r.runEvaluations[i].name === e.name));
  },
  // whatever its input, an item of a dataset is linked
  anyInput: async ($, T) => {
    for (const input of [null, 0, "", false, [], {}, $.in("n", T.num), $.in("t", T.str), { a: $.in("a", T.str) }]) for (const expectedOutput of [undefined, null, 0, "", false]) {
      const h = mk($), got = [];
      const r = await h.m.run({ name: "n", runName: "r", data: [{ id: "item", datasetId: "ds", input, expectedOutput }], task: async (it) => { got.push(it.input); return "o"; }, evaluators: [async (p) => { got.push(p.input, p.expectedOutput); return { name: "e", value: 1 }; }] });
      $.assert("an item with any input runs once and is linked", r.itemResults.length === 1 && got.length === 3 && h.links.length === 1 && h.links[0].datasetItemId === "item" && h.links[0].traceId === r.itemResults[0].traceId);
      $.assert("and its evaluators see its own values", got[0] === input && got[1] === input && got[2] === expectedOutput);
    }
  },
  names: { clock: 1700000000000, run: async ($, T) => {
    const h = mk($), name = $.in("name", T.str), runName = $.in("runName", T.opt(T.str));
    const r = await h.m.run({ name, runName, data: [], task: async () => 1 });
    $.assert("the given run name, or name and time", runName !== undefined && runName !== "" ? r.runName === runName : r.runName === `${name} - 2023-11-14T22:13:20.000Z`);
    $.same("nothing to do", [r.itemResults.length, r.runEvaluations.length, r.datasetRunId, r.datasetRunUrl, h.scores.length], [0, 0, undefined, undefined, 0]);
    $.assert("flushed", h.flushes >= 1);
    $.assert("formats", (await r.format()) === "No experiment results to display.");
  } },
  format: { clock: 1700000000000, run: async ($, T) => {
    for (const fail of [-1, 0, 1, 2]) for (const vals of [[0, 0.5, 1], [2.25, 1, 1]]) {
    const h = mk($);
    const data = [0, 1, 2].map((i) => ({ id: "it" + i, datasetId: "d", input: "in" + i, expectedOutput: "exp" + i }));
    const r = await h.m.run({ name: "N", runName: "R", description: "D", data, task: async (it) => { if (it === data[fail]) throw new Error("t"); return "out" + data.indexOf(it); }, evaluators: [async ({ input }) => ({ name: "acc", value: vals[Number(input.slice(2))], comment: "why" + input })], runEvaluators: [async () => ({ name: "re", value: 0.25 })] });
    const full = await r.format({ includeItemResults: true }), short = await r.format();
    const blocks = full.split(/\n(?=\d+\. Item )/).slice(1);
    const ok = [0, 1, 2].filter((i) => i !== fail);
    $.assert("one block per result", blocks.length === ok.length);
    for (let k = 0; k < ok.length; k++) {
      const b = blocks[k], i = ok[k];
      $.assert("each block shows the input, expected and actual output, scores and links of one item", b.includes("in" + i + "\n") && b.includes("exp" + i + "\n") && b.includes("out" + i + "\n") && b.includes(`acc: ${vals[i].toFixed(3)}`) && b.includes("whyin" + i) && b.includes(`/datasets/d/items/it${i}\n`) && b.includes(`/traces/${r.itemResults[k].traceId}\n`));
    }
    const avg = (ok.map((i) => vals[i]).reduce((a, b) => a + b, 0) / ok.length).toFixed(3);
    for (const t of [full, short]) $.assert("the summary shows names, counts, averages, run evaluations and the run's url", t.includes("Experiment: N") && t.includes("R - D") && t.includes(`${ok.length} items`) && t.includes(`acc: ${avg}`) && t.includes("re: 0.250") && t.includes("https://host/project/p1/datasets/d/runs/run-id"));
    $.assert("item results hidden by default", !short.includes("exp0") && !short.includes("exp1"));
    }
  } },
  formatScores: { clock: 1700000000000, run: async ($, T) => {
    for (const runEvals of [[], [{ name: "re", value: 0.25, comment: "becauseOfX" }, { name: "verdict", value: "good" }]]) {
    const h = mk($);
    const data = [{ input: "a" }, { input: "b" }, { input: "c" }], V = { a: 1, b: "n/a", c: 4 };
    const r = await h.m.run({ name: "N", runName: "R", data, task: async () => "o", evaluators: [async ({ input }) => ({ name: "mix", value: V[input] }), async ({ input }) => ({ name: "label", value: "L" + input }), async ({ input }) => (input === "c" ? [{ name: "rare", value: 8 }] : [])], runEvaluators: runEvals.map((e) => async () => e) });
    const full = await r.format({ includeItemResults: true }), short = await r.format();
    $.assert("scores of every kind are shown", full.includes("mix: 1.000\n") && full.includes("mix: n/a\n") && full.includes("mix: 4.000\n") && full.includes("label: La\n") && full.includes("rare: 8.000\n"));
    for (const t of [full, short]) {
      const avg = t.slice(t.indexOf("Average Scores:"));
      $.assert("no dataset run is shown where there is none", !avg.includes("undefined") && !avg.includes("null"));
      $.assert("averages are over the numeric scores of that name", avg.includes("mix: 2.500\n") && avg.includes("rare: 8.000\n") && !avg.includes("label"));
      $.assert("run evaluations with their comments, where there are any", runEvals.length === 0 ? !t.includes("Run Evaluations") : avg.includes("re: 0.250") && avg.includes("becauseOfX") && avg.includes("verdict: good"));
    }
    }
  } },
  itemIds: async ($, T) => {
    const h = mk($), ids = new Map();
    const name = $.in("name", T.strOf({ nonEmpty: true }));
    const task = async (it) => { ids.set(it, getPropagatedAttributesFromContext(context.active())["langfuse.experiment.item.id"]); return 1; };
    for (const max of [1, 50]) {
      ids.clear();
      const data = [{ input: "hello" }, { input: { a: 1 } }, { input: 5 }, { input: "hello", expectedOutput: 1 }];
      await h.m.run({ name, runName: "r", maxConcurrency: max, data, task });
      $.same("an item without id is identified by the hash of its input, in every run", data.map((x) => ids.get(x)), ["2cf24dba5fb0a30e", "015abd7f5cc57a2d", "ef2d127de37b942b", "2cf24dba5fb0a30e"]);
    }
  },
  formatValues: { clock: 1700000000000, run: async ($, T) => {
    for (const [v, s, n] of [[null, "short", 0], ["x", "a\nb", 1.5], [true, "$&", -3]]) {
    const h = mk($);
    const long = "abcdefghij".repeat(6), fifty = "abcdefghij".repeat(5);
    const data = [{ input: { v }, expectedOutput: [n] }, { input: long, expectedOutput: 0 }, { id: "only", input: fifty }, { input: s, expectedOutput: false }];
    const r = await h.m.run({ name: "N", runName: "R", data, task: async (it) => ({ got: it.input === s ? s : n }) });
    const full = await r.format({ includeItemResults: true });
    const want = [[JSON.stringify({ v }), JSON.stringify([n]), n], [long.slice(0, 47) + "...", "0", n], [fifty, "null", n], [s, "false", s]];
    for (let k = 0; k < 4; k++) $.assert("texts up to 50 characters as they are, longer ones shortened, other values as JSON", full.includes(`${k + 1}. Item ${k + 1}:\n   Input:    ${want[k][0]}\n   Expected: ${want[k][1]}\n   Actual:   ${JSON.stringify({ got: want[k][2] })}\n`));
    $.assert("no dataset link for items that are in no dataset", !full.includes("/datasets/"));
    }
  } },
  runner: async ($, T) => {
    const runs = [], client = { experiment: { run: async (p) => { runs.push(p); return "res"; } } };
    const D1 = [{ input: 1 }], D2 = [{ input: 2 }], own = $.in("own", T.opt(T.lit("d"))) === undefined ? undefined : D1, given = $.in("given", T.opt(T.lit("d"))) === undefined ? undefined : D2;
    const m1 = $.in("m1", T.opt(T.obj({ a: T.str, b: T.str }))), m2 = $.in("m2", T.opt(T.obj({ b: T.str, c: T.str }))), v1 = $.in("v1", T.opt(T.str)), v2 = $.in("v2", T.opt(T.str)), name = $.in("name", T.str);
    const c = new RunnerContext({ client, data: own, datasetVersion: v1, metadata: m1 }), task = async () => 1;
    let err, r; try { r = await c.runExperiment({ name, task, data: given, metadata: m2, datasetVersion: v2, maxConcurrency: 7 }); } catch (e) { err = e; }
    if (own === undefined && given === undefined) return $.assert("data is needed", err instanceof Error && runs.length === 0);
    $.assert("runs once with the call's values over the context's", err === undefined && r === "res" && runs.length === 1 && runs[0].data === (given ?? own) && runs[0].name === name && runs[0].task === task && runs[0].maxConcurrency === 7 && runs[0].datasetVersion === (v2 ?? v1));
    $.same("metadata are merged", runs[0].metadata, m1 === undefined && m2 === undefined ? undefined : { ...(m1 ?? {}), ...(m2 ?? {}) });
  },
  regression: ($, T) => {
    const message = $.in("message", T.opt(T.str)), metric = $.in("metric", T.opt(T.str)), value = $.in("value", T.opt(T.num)), threshold = $.in("threshold", T.opt(T.num)), result = {};
    const e = new RegressionError({ result, message, metric, value, threshold });
    $.assert("is an error that carries what it was given", e instanceof Error && e.name === "RegressionError" && e.result === result && e.metric === metric && e.value === value && e.threshold === threshold);
    $.assert("message", e.message === (message !== undefined ? message : metric !== undefined && value !== undefined ? `Regression on \`${metric}\`: ${value}${threshold !== undefined ? ` (threshold ${threshold})` : ""}` : "Experiment regression detected"));
  },
  autoevals: async ($, T) => {
    const p = { input: $.in("input", T.any), output: $.in("output", T.any), expectedOutput: $.in("expected", T.any), metadata: {} }, score = $.in("score", T.or(T.num, T.nul, T.undef)), extra = $.in("extra", T.opt(T.obj({ model: T.str, input: T.str }))), md = $.in("md", T.any);
    let got; const ev = createEvaluatorFromAutoevals(async (a) => { got = a; return { name: "n", score, metadata: md }; }, extra);
    const r = await ev(p);
    $.same("the evaluator is called with input, output, expected and the fixed parameters", got, { ...(extra === undefined ? {} : { model: extra.model }), input: p.input, output: p.output, expected: p.expectedOutput });
    $.same("its score, zero if none", r, { name: "n", value: score ?? 0, metadata: md });
  },
};
