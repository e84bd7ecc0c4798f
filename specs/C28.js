/*META {"trusted":["harness tracer provider and span (specs/lib/otel.js)","@opentelemetry/api 1.9 and @ai-sdk/otel (interpreted, not modelled)"],"assumptions":["the AI SDK issues the telemetry events of a call as its v7 protocol documents (start, steps, model calls, tools, end, error or abort) and @ai-sdk/otel hands the runtime context of text calls, not of object, embed and rerank calls, to the integration"]} */
import { LangfuseVercelAiSdkIntegration } from "@repo/packages/vercel-ai-sdk/src/index.ts";
import { setupOtel, trace, context } from "./lib/otel.js";
const MD = "langfuse.observation.metadata.";
const perf = { responseTimeMs: 1 };
const usage = (i, o) => ({ inputTokens: i, outputTokens: o });
const tc = (i) => ({ toolCallId: "t" + i, toolName: "tool" + i, input: { i } });
const startEv = (callId, rc, op = "ai.generateText") => ({ callId, operationId: op, provider: "openai", modelId: "m", messages: [{ role: "user", content: "q" }], runtimeContext: rc, prompt: "q", value: op === "ai.embedMany" ? ["a"] : "a", documents: ["d"] });
const endEv = (callId, i, o) => ({ callId, finishReason: "stop", usage: { ...usage(i, o), tokens: i }, text: "answer", finalStep: { reasoning: [] }, toolCalls: [], files: [], object: { a: 1 }, embedding: [1] });
const callEnd = (callId, i, o) => ({ callId, performance: perf, finishReason: "stop", responseId: "r", modelId: "m", usage: usage(i, o), content: [{ type: "text", text: "answer" }] });
const P = (s) => [s.attributes["langfuse.observation.prompt.name"], s.attributes["langfuse.observation.prompt.version"]];
export const units = {
  textCall: async ($, T) => {
    const p = setupOtel();
    const nm = $.in("nm", T.strOf({ nonEmpty: true })), v = $.in("v", T.range(1, 1000)), md = $.in("md", T.str), i = $.in("i", T.range(0, 1000)), o = $.in("o", T.range(0, 1000)), val = $.in("val", T.or(T.str, T.num, T.nul, T.undef));
    const rc = { langfusePrompt: { name: nm, version: v, isFallback: false }, note: md, n: 5 };
    const x = new LangfuseVercelAiSdkIntegration();
    const seen = [], before = context.active();
    x.onStart(startEv("c", rc));
    x.onStepStart({ callId: "c", steps: [], runtimeContext: rc });
    x.onLanguageModelCallStart({ callId: "c", provider: "openai", modelId: "m", messages: [] });
    const res = { r: 1 };
    const pr = x.executeLanguageModelCall({ callId: "c", execute: async () => { seen.push(trace.getSpanContext(context.active())); return res; } });
    $.assert("the model call's very result", (await pr) === res);
    x.onLanguageModelCallEnd(callEnd("c", i, o));
    for (const k of [1, 2]) x.onToolExecutionStart({ callId: "c", toolCall: tc(k) });
    const got = await Promise.all([2, 1].map((k) => x.executeTool({ callId: "c", toolCallId: "t" + k, execute: async () => { await null; seen.push(trace.getSpanContext(context.active())); return k === 1 ? val : "two"; } })));
    $.assert("the tools' very results", got.length === 2 && got[0] === "two" && (got[1] === val || Object.is(got[1], val)));
    for (const k of [2, 1]) x.onToolExecutionEnd({ callId: "c", toolCall: tc(k), toolExecutionMs: 1, toolOutput: { type: "tool-result", output: k } });
    x.onStepEnd({ callId: "c", usage: usage(i, o) });
    x.onEnd(endEv("c", i, o));
    $.assert("operation, step, model call and two tools", p.spans.length === 5 && p.spans.every((s) => s.endCount === 1 && s.writesAfterEnd === 0));
    const [root, step, model, t1, t2] = p.spans;
    $.assert("nested as they ran", root.parentCtx === undefined && step.parentCtx.spanId === root.ctx.spanId && [model, t1, t2].every((s) => s.parentCtx.spanId === step.ctx.spanId));
    $.assert("model call and tools run inside their spans", seen.length === 3 && seen[0].spanId === model.ctx.spanId && seen[1].spanId === t2.ctx.spanId && seen[2].spanId === t1.ctx.spanId);
    $.same("the prompt is linked to the model call only", p.spans.map(P), [[undefined, undefined], [undefined, undefined], [nm, v], [undefined, undefined], [undefined, undefined]]);
    $.assert("runtime context is metadata everywhere, without the prompt", p.spans.every((s) => s.attributes[MD + "note"] === md && s.attributes[MD + "n"] === "5" && s.attributes[MD + "langfusePrompt"] === undefined));
    $.assert("usage", model.attributes["gen_ai.usage.input_tokens"] === i && model.attributes["gen_ai.usage.output_tokens"] === o);
    $.assert("the caller's context is unchanged", context.active() === before);
  },
  otherCalls: async ($, T) => {
    const p = setupOtel();
    const i = $.in("i", T.range(0, 1000));
    const x = new LangfuseVercelAiSdkIntegration();
    for (const op of ["ai.embed", "ai.embedMany", "ai.rerank", "ai.generateObject", "ai.streamObject"]) {
      p.spans.length = 0;
      x.onStart(startEv("c", undefined, op));
      if (op.startsWith("ai.embed")) { x.onEmbedStart({ callId: "c", embedCallId: "e", values: ["a"] }); x.onEmbedEnd({ callId: "c", embedCallId: "e", usage: { tokens: i }, embeddings: [[1]] }); }
      else if (op === "ai.rerank") { x.onRerankStart({ callId: "c", documents: ["d"] }); x.onRerankEnd({ callId: "c", documentsType: "text", ranking: [] }); }
      else { x.onObjectStepStart({ callId: "c", provider: "openai", modelId: "m" }); x.onObjectStepEnd({ callId: "c", finishReason: "stop", response: { id: "r", modelId: "m" }, usage: usage(i, i), objectText: "{}" }); }
      $.assert("the model call is over, the operation is not", p.spans.length === 2 && p.spans[0].endCount === 0 && p.spans[1].endCount === 1 && p.spans[1].parentCtx.spanId === p.spans[0].ctx.spanId);
      x.onEnd(endEv("c", i, i));
      $.assert("then both are, once", p.spans.length === 2 && p.spans.every((s) => s.endCount === 1));
    }
  },
  broken: async ($, T) => {
    const p = setupOtel();
    const msg = $.in("msg", T.strOf({ nonEmpty: true }));
    for (const how of ["abort", "error"]) for (const at of [0, 1, 2, 3]) {
      p.spans.length = 0;
      const x = new LangfuseVercelAiSdkIntegration();
      x.onStart(startEv("c", {}));
      if (at > 0) x.onStepStart({ callId: "c", steps: [] });
      if (at > 1) x.onLanguageModelCallStart({ callId: "c", provider: "openai", modelId: "m", messages: [] });
      if (at > 2) { x.onLanguageModelCallEnd(callEnd("c", 1, 1)); x.onToolExecutionStart({ callId: "c", toolCall: tc(1) }); }
      x.onStart(startEv("d", {}));
      if (how === "abort") x.onAbort({ callId: "c", steps: [] }); else x.onError({ callId: "c", error: new Error(msg) });
      $.assert("an aborted or failed call ends everything it began, and nothing else", p.spans.length === at + 2 && p.spans.slice(0, at + 1).every((s) => s.endCount === 1) && p.spans[at + 1].endCount === 0);
      $.assert("failures are marked", how === "abort" || (p.spans[0].statuses.length === 1 && p.spans[0].statuses[0].message === msg));
      x.onEnd(endEv("d", 1, 1));
    }
  },
  context: async ($, T) => {
    const p = setupOtel();
    const s = $.in("s", T.str), n = $.in("n", T.num), b = $.in("b", T.bool), nm = $.in("nm", T.str), v = $.in("v", T.num);
    const circ = { toJSON() { throw new Error("no"); } };
    const run = (rc) => { p.spans.length = 0; const x = new LangfuseVercelAiSdkIntegration(); x.onStart(startEv("c", rc)); x.onStepStart({ callId: "c", steps: [], runtimeContext: rc }); x.onLanguageModelCallStart({ callId: "c", provider: "openai", modelId: "m", messages: [] }); return p.spans[2]; };
    let sp = run({ s, n, b, o: { s, l: [n, b] }, nul: null, und: undefined, circ, f: () => 1, l: [s] });
    $.assert("text as it is", sp.attributes[MD + "s"] === s);
    $.assert("other values as JSON", sp.attributes[MD + "n"] === JSON.stringify(n) && sp.attributes[MD + "b"] === JSON.stringify(b));
    $.same("objects as JSON", JSON.parse(sp.attributes[MD + "o"]), { s, l: [n, b] });
    $.same("lists as JSON", JSON.parse(sp.attributes[MD + "l"]), [s]);
    $.assert("no value, no attribute", !(MD + "nul" in sp.attributes) && !(MD + "und" in sp.attributes) && !(MD + "f" in sp.attributes));
    $.assert("a value that cannot be serialised does not fail the call", typeof sp.attributes[MD + "circ"] === "string");
    const d = new Date(1700000000000);
    sp = run({ d });
    $.assert("dates as JSON", sp.attributes[MD + "d"] === JSON.stringify(d));
    const client = new (class { constructor() { this.name = nm; this.version = v; this.isFallback = false; } compile() {} })();
    for (const [prompt, linked] of [[client, true], [{ name: nm, version: v }, true], [{ name: nm, version: v, isFallback: false }, true], [{ name: nm, version: v, isFallback: true }, false], [{ name: nm, version: v, isFallback: "yes" }, true], [{ name: nm }, false], [{ version: v }, false], [{ name: n, version: v }, false], [{ name: nm, version: "1" }, false], [null, false], [s, false], [[nm, v], false], [undefined, false]]) {
      sp = run({ langfusePrompt: prompt, k: s });
      $.same("well-formed prompts that are no fallbacks are linked", P(sp), linked ? [nm, v] : [undefined, undefined]);
      $.assert("and no metadata", sp.attributes[MD + "k"] === s && !Object.keys(sp.attributes).some((k) => k.startsWith(MD + "langfusePrompt")));
    }
    const rc = { langfusePrompt: { name: nm, version: v }, k: { s } };
    run(rc);
    $.same("the caller's context object is left alone", rc, { langfusePrompt: { name: nm, version: v }, k: { s } });
    for (const none of [undefined, null, {}]) { sp = run(none); $.assert("without runtime context", !Object.keys(sp.attributes).some((k) => k.startsWith("langfuse."))); }
  },
  passThrough: async ($, T) => {
    const p = setupOtel();
    const v = $.in("v", T.or(T.str, T.num, T.nul, T.undef)), fails = $.in("fails", T.bool), known = $.in("known", T.bool);
    const err = new Error("tool");
    const x = new LangfuseVercelAiSdkIntegration();
    if (known) { x.onStart(startEv("c", {})); x.onStepStart({ callId: "c", steps: [] }); x.onLanguageModelCallStart({ callId: "c", provider: "openai", modelId: "m", messages: [] }); x.onToolExecutionStart({ callId: "c", toolCall: tc(1) }); }
    for (const f of [(execute) => x.executeTool({ callId: "c", toolCallId: "t1", execute }), (execute) => x.executeLanguageModelCall({ callId: "c", execute })]) {
      let n = 0, caught, got;
      try { got = await f(() => { n++; return fails ? Promise.reject(err) : Promise.resolve(v); }); } catch (e) { caught = e; }
      $.assert("run once, with its very result or error", n === 1 && (fails ? caught === err : caught === undefined && (got === v || Object.is(got, v))));
    }
  },
  ownTracer: ($, T) => {
    const p = setupOtel();
    const name = $.in("name", T.strOf({ nonEmpty: true }));
    const q = { spans: [] };
    const tracer = { startSpan: (n, o, c) => { const s = { n, o, end() { this.ended = true; }, setAttributes() { return this; }, setAttribute() { return this; }, spanContext: () => ({ traceId: "t", spanId: "s", traceFlags: 1 }), setStatus() {}, recordException() {} }; q.spans.push(s); return s; } };
    const x = new LangfuseVercelAiSdkIntegration({ tracer });
    x.onStart({ ...startEv("c", { k: name }), modelId: name });
    x.onEnd(endEv("c", 1, 1));
    $.assert("a given tracer is the one used", p.spans.length === 0 && q.spans.length === 1 && q.spans[0].ended === true && q.spans[0].o.attributes[MD + "k"] === name);
  },
  concurrent: ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.strOf({ nonEmpty: true }));
    for (const ord of [["c", "d"], ["d", "c"]]) {
      p.spans.length = 0;
      const x = new LangfuseVercelAiSdkIntegration();
      const rc = { c: { k: a }, d: { k: b } };
      for (const c of ["c", "d"]) x.onStart(startEv(c, rc[c]));
      for (const c of ord) x.onStepStart({ callId: c, steps: [], runtimeContext: rc[c] });
      for (const c of ["c", "d"]) x.onLanguageModelCallStart({ callId: c, provider: "openai", modelId: "m", messages: [] });
      for (const c of ord) { x.onLanguageModelCallEnd(callEnd(c, 1, 1)); x.onStepEnd({ callId: c, usage: usage(1, 1) }); x.onEnd(endEv(c, 1, 1)); }
      $.assert("interleaved calls keep their own trees and context", p.spans.length === 6 && p.spans.every((s) => s.endCount === 1) && p.spans.filter((s) => s.attributes[MD + "k"] === a).length >= 3 && p.spans[4].ctx.traceId === p.spans[0].ctx.traceId && p.spans[5].ctx.traceId === p.spans[1].ctx.traceId && p.spans[4].attributes[MD + "k"] === a && p.spans[5].attributes[MD + "k"] === b);
    }
  },
};
