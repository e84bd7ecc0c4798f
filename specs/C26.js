/*META {"trusted":["harness tracer provider and span (specs/lib/otel.js)","@opentelemetry/api 1.9 and @langchain/core 1.1 (interpreted, not modelled)","LangChain's callback protocol: one start and one end or error event per run id, agent events under the run id of the agent's chain"],"assumptions":["run trees have up to seven runs in the proved units (ids, names, kinds, errors and end orders unrestricted)"]} */
import { oddValues } from "./lib/odd.js";
import { CallbackHandler } from "@repo/packages/langchain/src/index.ts";
import { getPropagatedAttributesFromContext } from "@repo/packages/core/src/propagation.ts";
import { HumanMessage, AIMessage } from "@langchain/core/messages";
import { setupOtel, trace, context } from "./lib/otel.js";
const O = (s, k) => s.attributes["langfuse.observation." + k];
const ser = (...id) => ({ lc: 1, type: "constructor", id });
const uuid = (n) => "00000000-0000-4000-8000-00000000000" + n;
const KINDS = ["chain", "llm", "chat", "tool", "retriever"];
const TYPE = { chain: "span", llm: "generation", chat: "generation", tool: "tool", retriever: "span" };
function start(h, kind, run, parent, name, o = {}) {
  const s = o.serialized ?? ser("pkg", "Cls");
  switch (kind) {
    case "chain": return h.handleChainStart(s, { q: 1 }, run, parent, o.tags, o.metadata, undefined, name);
    case "llm": return h.handleLLMStart(s, ["p"], run, parent, o.extra, o.tags, o.metadata, name);
    case "chat": return h.handleChatModelStart(s, [[new HumanMessage("p")]], run, parent, o.extra, o.tags, o.metadata, name);
    case "tool": return h.handleToolStart(s, "in", run, parent, o.tags, o.metadata, name);
    case "retriever": return h.handleRetrieverStart(s, "in", run, parent, o.tags, o.metadata, name);
  }
}
function end(h, kind, run, parent, val) {
  switch (kind) {
    case "chain": return h.handleChainEnd({ output: val }, run, parent);
    case "llm": return h.handleLLMEnd({ generations: [[{ text: val }]] }, run, parent);
    case "chat": return h.handleLLMEnd({ generations: [[{ text: val, message: new AIMessage(val) }]] }, run, parent);
    case "tool": return h.handleToolEnd(val, run, parent);
    case "retriever": return h.handleRetrieverEnd([{ pageContent: val }], run, parent);
  }
}
function fail(h, kind, run, parent, err) {
  switch (kind) {
    case "chain": return h.handleChainError(err, run, parent);
    case "llm": case "chat": return h.handleLLMError(err, run, parent);
    case "tool": return h.handleToolError(err, run, parent);
    case "retriever": return h.handleRetrieverError(err, run, parent);
  }
}
// the recorded output of a run as plain text
function outOf(kind, s) {
  const o = O(s, "output");
  return kind === "chat" ? JSON.parse(o).content : kind === "retriever" ? JSON.parse(o)[0].pageContent : o;
}
// how much state the handler holds (any map, set, list or record among its fields)
function held(h) {
  let n = 0;
  for (const k of Object.keys(h)) {
    const v = h[k];
    if (k.startsWith("lc_") || v === null || typeof v !== "object") continue;
    if (v instanceof Map || v instanceof Set) n += v.size;
    else if (Array.isArray(v)) n += v.length;
    else n += Object.keys(v).length;
  }
  return n;
}
export const units = {
  tree: async ($, T) => {
    const p = setupOtel();
    const nm = $.in("nm", T.strOf({ nonEmpty: true })), out = $.in("out", T.strOf({ nonEmpty: true }));
    const before = context.active();
    for (const kind of KINDS) for (const k2 of ["chain", "tool"]) for (const named of [true, false]) {
      p.spans.length = 0;
      const h = new CallbackHandler();
      const before0 = held(h);
      await start(h, "chain", uuid(1), undefined, "root");
      await start(h, k2, uuid(2), uuid(1), "mid");
      await start(h, kind, uuid(3), uuid(2), named ? nm : undefined);
      $.assert("one observation per run, none ended", p.spans.length === 3 && p.spans.every((s) => s.endCount === 0));
      const [r, m, l] = p.spans;
      $.assert("the root has no parent", r.parentCtx === undefined);
      $.assert("each run is the child of its parent run", m.parentCtx.spanId === r.ctx.spanId && l.parentCtx.spanId === m.ctx.spanId && l.ctx.traceId === r.ctx.traceId && m.ctx.traceId === r.ctx.traceId);
      $.assert("kind and name", O(l, "type") === TYPE[kind] && l.name === (named ? nm : "Cls") && O(r, "type") === "span");
      await end(h, kind, uuid(3), uuid(2), out);
      $.assert("only the ended run is ended", r.endCount === 0 && m.endCount === 0 && l.endCount === 1);
      $.assert("with its output, not as an error", O(l, "output") !== undefined && outOf(kind, l) === out && O(l, "level") === undefined);
      await end(h, k2, uuid(2), uuid(1), "o");
      await end(h, "chain", uuid(1), undefined, "o");
      $.assert("every run ended exactly once", p.spans.length === 3 && p.spans.every((s) => s.endCount === 1 && s.writesAfterEnd === 0));
      $.assert("the trace of the run is known", h.last_trace_id === r.ctx.traceId);
      $.assert("nothing is kept of finished runs", held(h) === before0);
      $.assert("the caller's context is unchanged", context.active() === before && trace.getActiveSpan() === undefined);
    }
  },
  ids: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.strOf({ nonEmpty: true })), c = $.in("c", T.strOf({ nonEmpty: true }));
    $.assume(a !== b); $.assume(b !== c); $.assume(a !== c);
    const h = new CallbackHandler();
    await start(h, "chain", a, undefined, "a");
    await start(h, "tool", b, a, "b");
    await start(h, "retriever", c, a, "c");
    await end(h, "tool", b, a, "x");
    $.assert("whatever the run ids, the run that ended is ended", p.spans[1].endCount === 1 && p.spans[0].endCount === 0 && p.spans[2].endCount === 0);
    $.assert("and its parent is the parent run", p.spans[1].parentCtx.spanId === p.spans[0].ctx.spanId && p.spans[2].parentCtx.spanId === p.spans[0].ctx.spanId);
    await fail(h, "retriever", c, a, new Error("e"));
    await end(h, "chain", a, undefined, "x");
    $.assert("all ended once", p.spans.every((s) => s.endCount === 1));
  },
  anyThrown: async ($, T) => {
    const p = setupOtel();
    const name = $.in("name", T.strOf({ nonEmpty: true }));
    for (const kind of KINDS) for (const err of oddValues()) {
      p.spans.length = 0;
      const h = new CallbackHandler(), before0 = held(h);
      await start(h, "chain", uuid(1), undefined, "root");
      await start(h, kind, uuid(2), uuid(1), name, { extra: {} });
      await fail(h, kind, uuid(2), uuid(1), err);
      await fail(h, "chain", uuid(1), undefined, err);
      $.assert("whatever was thrown, a failed " + kind + " run ends once, as an error", p.spans.length === 2 && p.spans.every((s) => s.endCount === 1 && s.writesAfterEnd === 0 && O(s, "level") === "ERROR"));
      $.assert("nothing is kept of it", held(h) === before0);
    }
  },
  failures: async ($, T) => {
    const p = setupOtel();
    const msg = $.in("msg", T.strOf({ nonEmpty: true }));
    const weird = Object.assign(new Error(msg), { error: { code: "content_filter", m: msg } });
    for (const kind of KINDS) for (const err of [new Error(msg), msg, null, undefined, 5, { code: 1 }, weird]) {
      p.spans.length = 0;
      const h = new CallbackHandler();
      const before0 = held(h);
      await start(h, "chain", uuid(1), undefined, "root");
      await start(h, kind, uuid(2), uuid(1), "x", { extra: {} });
      if (kind === "llm" || kind === "chat") await h.handleLLMNewToken("t", {}, uuid(2));
      if (kind === "chain") await start(h, "chain", uuid(3), uuid(2), "prompt", { metadata: { langfusePrompt: { name: "n", version: 1, isFallback: false } } });
      if (kind === "chain") await end(h, "chain", uuid(3), uuid(2), "o");
      await fail(h, kind, uuid(2), uuid(1), err);
      const s = p.spans[1];
      $.assert("a failed run ends, once, as an error", s.endCount === 1 && s.writesAfterEnd === 0 && O(s, "level") === "ERROR");
      const want = err === weird || err instanceof Error ? "Error: " + msg : String(err);
      const got = O(s, "status_message");
      $.assert("with the error's message", got === want || (err === weird && kind !== "tool" && kind !== "retriever" && got.startsWith(want)));
      if (err === weird && (kind === "chain" || kind === "llm" || kind === "chat")) $.assert("and the provider's details, where it gives any", got.length > want.length);
      $.assert("its parent goes on", p.spans[0].endCount === 0 && O(p.spans[0], "level") === undefined);
      await fail(h, "chain", uuid(1), undefined, err);
      $.assert("all ended once", p.spans.every((x) => x.endCount === 1));
      $.assert("nothing is kept of failed runs", held(h) === before0);
    }
  },
  siblings: async ($, T) => {
    const p = setupOtel();
    const x = $.in("x", T.strOf({ nonEmpty: true })), y = $.in("y", T.strOf({ nonEmpty: true })), z = $.in("z", T.strOf({ nonEmpty: true }));
    const outs = [x, y, z];
    for (const ord of [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]) for (const kinds of [["tool", "tool", "tool"], ["llm", "chat", "retriever"], ["chain", "llm", "llm"]]) {
      p.spans.length = 0;
      const h = new CallbackHandler();
      await start(h, "chain", uuid(9), undefined, "root");
      await Promise.all([0, 1, 2].map((i) => start(h, kinds[i], uuid(i), uuid(9), "s" + i)));
      for (const i of ord) {
        await end(h, kinds[i], uuid(i), uuid(9), outs[i]);
        $.assert("concurrent runs end in any order, each with its own output", p.spans[i + 1].endCount === 1 && outOf(kinds[i], p.spans[i + 1]) === outs[i]);
      }
      $.assert("all are children of the root, which still runs", p.spans.slice(1).every((s, i) => s.parentCtx.spanId === p.spans[0].ctx.spanId && s.name === "s" + i && s.endCount === 1) && p.spans[0].endCount === 0);
    }
  },
  noGeneration: async ($, T) => {
    const p = setupOtel();
    const n = $.in("n", T.range(0, 100));
    for (const out of [{ generations: [] }, { generations: [[]] }, { generations: [[], []], llmOutput: { tokenUsage: { promptTokens: n, completionTokens: n, totalTokens: n } } }, { generations: [[{ text: "" }]], llmOutput: null }, { generations: [[{ text: "x" }]], llmOutput: { tokenUsage: null } }]) {
      p.spans.length = 0;
      const h = new CallbackHandler();
      await start(h, "llm", uuid(1), undefined, "x");
      await h.handleLLMEnd(out, uuid(1));
      $.assert("a model run without a generation ends too", p.spans.length === 1 && p.spans[0].endCount === 1 && O(p.spans[0], "level") === undefined);
    }
  },
  agent: async ($, T) => {
    const p = setupOtel();
    const tool = "search!", out = $.in("out", T.strOf({ nonEmpty: true })), fails = $.in("fails", T.bool);
    const h = new CallbackHandler();
    const before0 = held(h);
    await start(h, "chain", uuid(1), undefined, "executor");
    for (const i of [2, 3]) {
      await start(h, "chat", uuid(i), uuid(1), "model");
      await end(h, "chat", uuid(i), uuid(1), "call");
      await h.handleAgentAction({ tool, toolInput: { i }, log: "" }, uuid(1), undefined);
      await start(h, "tool", uuid(i + 4), uuid(1), tool);
      await end(h, "tool", uuid(i + 4), uuid(1), "res");
    }
    const root = p.spans[0];
    $.assert("the agent's chain goes on while the agent acts", root.endCount === 0);
    await h.handleAgentEnd({ returnValues: { output: out }, log: "" }, uuid(1), undefined);
    if (fails) await h.handleChainError(new Error("e"), uuid(1)); else await h.handleChainEnd({ output: out }, uuid(1));
    $.assert("it ends once with its own result", root.endCount === 1 && root.writesAfterEnd === 0 && root.name === "executor" && (fails ? O(root, "level") === "ERROR" : O(root, "output") === out));
    $.assert("every observation is ended once and below the chain", p.spans.every((s) => s.endCount === 1 && s.writesAfterEnd === 0) && p.spans.slice(1).every((s) => s.parentCtx.spanId === root.ctx.spanId));
    const acts = p.spans.filter((s) => s.name === tool && O(s, "type") === "span");
    $.assert("every action is recorded", acts.length === 2);
    acts.forEach((s, i) => $.same("with its input", JSON.parse(O(s, "input")), { tool, toolInput: { i: i + 2 }, log: "" }));
    $.assert("nothing is kept", held(h) === before0);
  },
  robust: { noUnhandled: true, run: async ($, T) => {
    const p = setupOtel();
    const v = $.in("v", T.or(T.undef, T.nul, T.str, T.num));
    const m = new HumanMessage("x");
    for (const f of [
      (h) => h.handleChainStart(v, v, uuid(1)), (h) => h.handleChainStart(ser("a"), null, uuid(1)), (h) => h.handleChainStart(ser(), { input: [] }, uuid(1)), (h) => h.handleChainStart(ser("a"), { input: v }, uuid(1), v ? uuid(2) : undefined, undefined, null),
      (h) => h.handleChainEnd(v, uuid(1)), (h) => h.handleChainEnd(null, uuid(1)), (h) => h.handleChainError(v, uuid(1)),
      (h) => h.handleLLMStart(v, v, uuid(1)), (h) => h.handleLLMStart(ser("a"), ["p"], uuid(1), undefined, {}), (h) => h.handleLLMStart(ser("a"), ["p"], uuid(1), undefined, { invocation_params: null }), (h) => h.handleLLMStart(ser("a"), ["p"], uuid(1), undefined, { invocation_params: undefined, options: {} }),
      (h) => h.handleChatModelStart(v, v, uuid(1)), (h) => h.handleChatModelStart(ser("a"), [[v]], uuid(1)), (h) => h.handleChatModelStart(null, [[m]], uuid(1)), (h) => h.handleChatModelStart(ser("a"), [[m]], uuid(1), undefined, {}, undefined, { ls_model_name: v }),
      (h) => h.handleLLMEnd(v, uuid(1)), (h) => h.handleLLMEnd({}, uuid(1)), (h) => h.handleLLMEnd({ generations: [[null]] }, uuid(1)), (h) => h.handleLLMError(v, uuid(1)), (h) => h.handleLLMNewToken("t", v, uuid(1)),
      (h) => h.handleToolStart(v, v, uuid(1)), (h) => h.handleToolEnd(v, uuid(1)), (h) => h.handleToolError(v, uuid(1)),
      (h) => h.handleRetrieverStart(v, v, uuid(1)), (h) => h.handleRetrieverEnd(v, uuid(1)), (h) => h.handleRetrieverError(v, uuid(1)),
      (h) => h.handleAgentAction(v, uuid(1)), (h) => h.handleAgentEnd(v, uuid(1)),
    ]) {
      const h = new CallbackHandler();
      let ok = false;
      try { await f(h); ok = true; } catch {}
      $.assert("no callback fails, whatever it is given", ok);
      await $.drain();
    }
  } },
  traceAttributes: async ($, T) => {
    const seen = [];
    const p = setupOtel({ onStart: (s, c) => { seen.push(getPropagatedAttributesFromContext(c)); } });
    const u1 = $.in("u1", T.strOf({ nonEmpty: true })), u2 = $.in("u2", T.strOf({ nonEmpty: true })), s1 = $.in("s1", T.strOf({ nonEmpty: true })), ver = $.in("ver", T.strOf({ nonEmpty: true })), md = $.in("md", T.strOf({ nonEmpty: true }));
    for (const x of [u1, u2, s1, ver, md]) $.assume(x.length <= 200);
    for (const own of [false, true]) {
      seen.length = 0; p.spans.length = 0;
      const h = new CallbackHandler({ userId: u1, sessionId: s1, tags: ["a", "b"], version: ver, traceMetadata: { k: md, n: { x: 1 } } });
      await start(h, "chain", uuid(1), undefined, "r", { tags: ["b", "c"], metadata: own ? { langfuseUserId: u2, langfuseSessionId: "own", other: md } : { other: md, langfuseUserId: 5 } });
      const at = seen[0];
      $.assert("user and session of the run, else of the handler", at["user.id"] === (own ? u2 : u1) && at["session.id"] === (own ? "own" : s1));
      $.same("tags of both, once each", at["langfuse.trace.tags"], ["b", "c", "a"]);
      $.assert("version and metadata", at["langfuse.version"] === ver && at["langfuse.trace.metadata.k"] === md && at["langfuse.trace.metadata.n"] === '{"x":1}');
      const s = p.spans[0];
      $.assert("run metadata without Langfuse's own keys", O(s, "metadata.other") === md && O(s, "metadata.langfuseUserId") === undefined && O(s, "metadata.langfuseSessionId") === undefined && O(s, "metadata.tags") === '["b","c"]');
      $.assert("observation version", s.attributes["langfuse.version"] === ver);
      await start(h, "tool", uuid(2), uuid(1), "t", { tags: ["langsmith:hidden"] });
      $.assert("hidden runs are debug level", O(p.spans[1], "level") === "DEBUG" && O(s, "level") === undefined && p.spans[1].attributes["langfuse.version"] === ver);
      await start(h, "chain", uuid(3), uuid(1), "c", { tags: ["seq:step:1"] });
      $.assert("the tags of an inner run are not the trace's", !(seen[2]["langfuse.trace.tags"] ?? []).includes("seq:step:1") && O(p.spans[2], "metadata.tags") === '["seq:step:1"]');
      $.same("outside the run nothing is set", getPropagatedAttributesFromContext(context.active()), {});
    }
  },
  reuse: async ($, T) => {
    const seen = [];
    const p = setupOtel({ onStart: (s, c) => { seen.push(getPropagatedAttributesFromContext(c)); } });
    const u1 = $.in("u1", T.strOf({ nonEmpty: true })), u2 = $.in("u2", T.strOf({ nonEmpty: true })), md = $.in("md", T.strOf({ nonEmpty: true }));
    for (const x of [u1, u2, md]) $.assume(x.length <= 200);
    for (const first of ["ends", "fails", "runs on"]) {
      seen.length = 0; p.spans.length = 0;
      const tags = ["a"], traceMetadata = { k: md }, ownTags = ["own"], own = { langfuseUserId: u2, langfuseSessionId: "own", other: md, langfusePrompt: { name: "n", version: 1, isFallback: false } };
      const h = new CallbackHandler({ userId: u1, tags, traceMetadata });
      await start(h, "chain", uuid(1), undefined, "one", { tags: ownTags, metadata: own });
      await start(h, "llm", uuid(2), uuid(1), "g", { tags: ownTags, metadata: own });
      if (first !== "runs on") { await end(h, "llm", uuid(2), uuid(1), "o"); if (first === "ends") await end(h, "chain", uuid(1), undefined, "o"); else await h.handleChainError(new Error("x"), uuid(1)); }
      await start(h, "chain", uuid(3), undefined, "two");
      await start(h, "llm", uuid(4), uuid(3), "g2");
      const at = seen[2], s = p.spans[2], g = p.spans[3];
      $.assert("a later run has its own trace", s.name === "two" && s.parentCtx === undefined && s.ctx.traceId !== p.spans[0].ctx.traceId && g.ctx.traceId === s.ctx.traceId);
      $.assert("user, session and metadata of an earlier run do not stick", at["user.id"] === u1 && at["session.id"] === undefined && at["langfuse.trace.metadata.k"] === md && O(s, "metadata.other") === undefined && O(g, "metadata.other") === undefined && O(g, "prompt.name") === undefined);
      $.same("nor do its tags", at["langfuse.trace.tags"], ["a"]);
      $.assert("tags of the run itself", O(s, "metadata.tags") === undefined && O(s, "level") === undefined);
      $.same("what was given is left alone", [tags, traceMetadata, ownTags, own], [["a"], { k: md }, ["own"], { langfuseUserId: u2, langfuseSessionId: "own", other: md, langfusePrompt: { name: "n", version: 1, isFallback: false } }]);
      const other = new CallbackHandler();
      await start(other, "chain", uuid(1), undefined, "elsewhere");
      $.assert("handlers are independent", p.spans[4].parentCtx === undefined && seen[4]["user.id"] === undefined && seen[4]["langfuse.trace.tags"] === undefined);
    }
  },
  prompts: async ($, T) => {
    const p = setupOtel();
    const n1 = $.in("n1", T.strOf({ nonEmpty: true })), n2 = $.in("n2", T.strOf({ nonEmpty: true })), v1 = $.in("v1", T.range(1, 100)), fb = $.in("fb", T.bool);
    const h = new CallbackHandler();
    const before0 = held(h);
    const P = (s) => [O(s, "prompt.name"), O(s, "prompt.version")];
    await start(h, "chain", uuid(1), undefined, "r");
    await start(h, "chain", uuid(2), uuid(1), "prompt", { metadata: { langfusePrompt: { name: n1, version: v1, isFallback: fb } } });
    await end(h, "chain", uuid(2), uuid(1), "o");
    await start(h, "chain", uuid(5), uuid(1), "other");
    await start(h, "chain", uuid(6), uuid(5), "prompt2", { metadata: { langfusePrompt: { name: n2, version: 7, isFallback: false } } });
    await start(h, "chat", uuid(3), uuid(1), "g1");
    await start(h, "llm", uuid(4), uuid(1), "g2");
    await start(h, "llm", uuid(7), uuid(5), "g3");
    await start(h, "llm", uuid(8), undefined, "g4");
    const g = (n) => p.spans.filter((s) => s.name === n)[0];
    $.same("the prompt of a chain is linked to the chain's next generation, unless a fallback", P(g("g1")), fb ? [undefined, undefined] : [n1, v1]);
    $.same("only to that one", [P(g("g2")), P(g("g4"))], [[undefined, undefined], [undefined, undefined]]);
    $.same("and prompts of other chains to theirs", P(g("g3")), [n2, 7]);
    $.assert("the prompt itself is no metadata", O(p.spans[1], "metadata.langfusePrompt") === undefined);
    for (const [k, i, par] of [["chain", 6, 5], ["chat", 3, 1], ["llm", 4, 1], ["llm", 7, 5], ["llm", 8, undefined], ["chain", 5, 1], ["chain", 1, undefined]]) await end(h, k, uuid(i), par === undefined ? undefined : uuid(par), "o");
    $.assert("all ended, nothing kept", p.spans.every((s) => s.endCount === 1) && held(h) === before0);
  },
  firstToken: { clock: 1700000000000, run: async ($, T) => {
    const p = setupOtel();
    const h = new CallbackHandler();
    await start(h, "chat", uuid(1), undefined, "a");
    await start(h, "chat", uuid(2), undefined, "b");
    await $.advance(10);
    await h.handleLLMNewToken("x", {}, uuid(1));
    await $.advance(10);
    await h.handleLLMNewToken("y", {}, uuid(1));
    await end(h, "chat", uuid(1), undefined, "xy");
    await end(h, "chat", uuid(2), undefined, "z");
    $.assert("the start of the answer is the first token's time", O(p.spans[0], "completion_start_time") === JSON.stringify(new Date(1700000000010)) && O(p.spans[1], "completion_start_time") === undefined);
  } },
};
