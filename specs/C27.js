/*META {"trusted":["harness tracer provider and span (specs/lib/otel.js)","@opentelemetry/api 1.9 and @langchain/core 1.1 message classes (interpreted, not modelled)"],"assumptions":["message lists and usage detail records have up to four entries in the proved units (contents and values unrestricted)","token counts are treated as reals"]} */
import { CallbackHandler } from "@repo/packages/langchain/src/index.ts";
import { HumanMessage, AIMessage, AIMessageChunk, SystemMessage, ToolMessage, FunctionMessage, ChatMessage, BaseMessage } from "@langchain/core/messages";
import { setupOtel } from "./lib/otel.js";
const O = (s, k) => s.attributes["langfuse.observation." + k];
const ser = { lc: 1, type: "constructor", id: ["p", "Cls"] };
const parse = (x) => (x === undefined ? undefined : JSON.parse(x));
async function chain(p, input, output) {
  p.spans.length = 0;
  const h = new CallbackHandler();
  await h.handleChainStart(ser, input, "r");
  await h.handleChainEnd(output, "r");
  return p.spans[0];
}
async function chat(p, messages, result, extra, metadata) {
  p.spans.length = 0;
  const h = new CallbackHandler();
  await h.handleChatModelStart(ser, messages, "r", undefined, extra, undefined, metadata);
  if (result) await h.handleLLMEnd(result, "r");
  return p.spans[0];
}
async function llm(p, prompts, result, extra, metadata) {
  p.spans.length = 0;
  const h = new CallbackHandler();
  await h.handleLLMStart(ser, prompts, "r", undefined, extra, undefined, metadata);
  if (result) await h.handleLLMEnd(result, "r");
  return p.spans[0];
}
class Custom extends BaseMessage { _getType() { return "developer"; } }
const pos = (v) => (v > 0 ? v : 0);
export const units = {
  messages: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.str), b = $.in("b", T.str), nm = $.in("nm", T.strOf({ nonEmpty: true })), id = $.in("id", T.strOf({ nonEmpty: true }));
    const call = { name: nm, args: { q: a }, id, type: "tool_call" };
    const kwCall = { id, type: "function", function: { name: nm, arguments: a } };
    const table = [
      [new HumanMessage(a), { content: a, role: "user" }],
      [new HumanMessage([{ type: "text", text: a }, { type: "image_url", image_url: { url: b } }]), { content: [{ type: "text", text: a }, { type: "image_url", image_url: { url: b } }], role: "user" }],
      [new SystemMessage(a), { content: a, role: "system" }],
      [new AIMessage(a), { content: a, role: "assistant" }],
      [new AIMessageChunk(a), { content: a, role: "assistant" }],
      [new AIMessage({ content: a, tool_calls: [call] }), { content: a, role: "assistant", tool_calls: [call] }],
      [new AIMessage({ content: a, additional_kwargs: { tool_calls: [kwCall] }, tool_calls: [] }), { content: a, role: "assistant", tool_calls: [kwCall] }],
      [new AIMessage({ content: a, additional_kwargs: { function_call: { name: nm, arguments: b } } }), { content: a, role: "assistant", additional_kwargs: { function_call: { name: nm, arguments: b } } }],
      [new ToolMessage({ content: a, tool_call_id: id, name: nm }), { content: a, additional_kwargs: {}, role: nm }],
      [new FunctionMessage({ content: a, name: nm }), { content: a, additional_kwargs: {}, role: nm }],
      [new ChatMessage(a, "critic"), { content: a, role: "human" }],
      [new Custom({ content: a }), { content: a }],
      [new Custom({ content: a, name: nm }), { content: a, role: nm }],
      [new Custom({ content: a, additional_kwargs: { function_call: { name: nm } } }), { content: a, additional_kwargs: { function_call: { name: nm } } }],
    ];
    for (const [msg, want] of table) {
      $.same("model input", parse(O(await chat(p, [[msg]]), "input")), [want]);
      $.same("chain input", parse(O(await chain(p, { input: [msg] }, {}), "input")), [want]);
      $.same("chain messages", parse(O(await chain(p, { messages: [msg, new HumanMessage(b)] }, {}), "input")), [want, { content: b, role: "user" }]);
      $.same("chain output messages", parse(O(await chain(p, {}, { messages: [new HumanMessage(b), msg] }), "output")), { messages: [{ content: b, role: "user" }, want] });
      if (msg instanceof AIMessage || msg instanceof AIMessageChunk) $.same("model output", parse(O(await chat(p, [[]], { generations: [[{ text: a, message: msg }]] }), "output")), want);
    }
    $.same("all messages in order", parse(O(await chat(p, [[new SystemMessage(a), new HumanMessage(b)], [new HumanMessage(a)]]), "input")), [{ content: a, role: "system" }, { content: b, role: "user" }, { content: a, role: "user" }]);
  },
  chainValues: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true })), n = $.in("n", T.num), b = $.in("b", T.bool);
    for (const v of [{ q: a, n }, { input: a }, { input: [a, n] }, { input: [new HumanMessage("x").content, a] }, { messages: [{ role: "user", content: a }] }, { content: a, other: n }, { content: n }, { deep: { list: [a, { b }] } }, {}]) $.same("other chain inputs as they are", parse(O(await chain(p, v, {}), "input")), v);
    $.assert("text alone as text", O(await chain(p, { content: a }, {}), "input") === a);
    $.assert("a text input as it is", O(await chain(p, a, {}), "input") === a);
    for (const v of [{ q: a, n }, { output: n }, { output: { a } }, { output: [a] }, { messages: [{ role: "user", content: a }] }, { deep: { list: [a, { b }] } }, {}]) $.same("other chain outputs as they are", parse(O(await chain(p, {}, v), "output")), v);
    $.assert("a text output as text", O(await chain(p, {}, { output: a, more: n }), "output") === a && O(await chain(p, {}, a), "output") === a);
  },
  mixedLists: { run: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true })), n = $.in("n", T.num);
    for (const other of [{ role: "user", content: a }, a, n, null, ["user", a]]) for (const msgFirst of [true, false]) {
      const list = msgFirst ? [new HumanMessage(a), other] : [other, new HumanMessage(a)], at = msgFirst ? 1 : 0;
      for (const key of ["input", "messages"]) {
        const s = await chain(p, { [key]: list }, { messages: list });
        $.assert("a list that holds more than messages is recorded too, and the run ends", p.spans.length === 1 && s.endCount === 1);
        const inp = parse(O(s, "input")), out = parse(O(s, "output"));
        $.same("with its other values as they are", [inp[key].length, inp[key][at], out.messages.length, out.messages[at]], [2, other, 2, other]);
      }
    }
  } },
  request: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.str), m1 = $.in("m1", T.strOf({ nonEmpty: true })), m2 = $.in("m2", T.strOf({ nonEmpty: true })), n = $.in("n", T.num);
    for (const [f, inp] of [[(e, md) => llm(p, [a, "b"], null, e, md), [a, "b"]], [(e, md) => chat(p, [[new HumanMessage(a)]], null, e, md), [{ content: a, role: "user" }]]]) {
      $.same("prompts", parse(O(await f(), "input")), inp);
      const tools = [{ type: "function", function: { name: m1 } }];
      $.same("with the tools offered", parse(O(await f({ invocation_params: { tools } }), "input")), { messages: inp, tools });
      $.same("and the tool choice", parse(O(await f({ invocation_params: { tools, tool_choice: m2 } }), "input")), { messages: inp, tools, tool_choice: m2 });
      $.same("or the tool choice alone", parse(O(await f({ invocation_params: { tool_choice: "any" } }), "input")), { messages: inp, tool_choice: "any" });
      $.assert("model asked for", O(await f({ invocation_params: { model: m1 } }, { ls_model_name: m2 }), "model.name") === m1 && O(await f({ invocation_params: {} }, { ls_model_name: m2 }), "model.name") === m2 && O(await f({ invocation_params: {} }), "model.name") === undefined);
      $.same("parameters", parse(O(await f({ invocation_params: { temperature: n, max_tokens: 0, top_p: null, frequency_penalty: n, presence_penalty: undefined, request_timeout: n, api_key: "secret" } }), "model.parameters")), { temperature: n, max_tokens: 0, frequency_penalty: n, request_timeout: n });
      for (const k of ["temperature", "max_tokens", "top_p", "frequency_penalty", "presence_penalty", "request_timeout"]) for (const v of [n, 0, null, undefined]) $.same("each parameter given", parse(O(await f({ invocation_params: { [k]: v } }), "model.parameters")), v === null || v === undefined ? {} : { [k]: v });
      $.assert("metadata", O(await f({ invocation_params: {} }, { k: m1, langfusePrompt: { name: "x" } }), "metadata.k") === m1);
    }
  },
  answer: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.str), m = $.in("m", T.strOf({ nonEmpty: true })), asked = $.in("asked", T.strOf({ nonEmpty: true }));
    $.assert("text", O(await llm(p, ["q"], { generations: [[{ text: a }]] }), "output") === a);
    $.assert("the last of several", O(await llm(p, ["q", "r"], { generations: [[{ text: b }], [{ text: b }, { text: a }]] }), "output") === a);
    for (const C of [AIMessage, AIMessageChunk]) {
      $.assert("the model that answered", O(await chat(p, [[]], { generations: [[{ text: a, message: new C({ content: a, response_metadata: { model_name: m } }) }]] }, { invocation_params: { model: asked } }), "model.name") === m);
      $.assert("else the one asked", O(await chat(p, [[]], { generations: [[{ text: a, message: new C({ content: a }) }]] }, { invocation_params: { model: asked } }), "model.name") === asked);
    }
    const s = await (async () => { p.spans.length = 0; const h = new CallbackHandler(); await h.handleToolStart(ser, b, "t"); await h.handleToolEnd({ content: a }, "t"); await h.handleRetrieverStart(ser, a, "r"); await h.handleRetrieverEnd([{ pageContent: b, metadata: { m } }, { pageContent: a, id: m }], "r"); return p.spans; })();
    $.same("tool result", parse(O(s[0], "output")), { content: a });
    $.assert("tool input and query", (O(s[0], "input") === b || (b === "" && O(s[0], "input") === undefined)) && O(s[1], "input") === a);
    $.same("documents", parse(O(s[1], "output")), [{ pageContent: b, metadata: { m } }, { pageContent: a, id: m }]);
  },
  usage: async ($, T) => {
    const p = setupOtel();
    const it = $.in("it", T.range(0, 1000000)), ot = $.in("ot", T.range(0, 1000000)), tt = $.in("tt", T.range(0, 2000000)), x = $.in("x", T.range(0, 1000000)), y = $.in("y", T.range(0, 1000000)), z = $.in("z", T.range(0, 1000000));
    for (const C of [AIMessage, AIMessageChunk])
      for (const [pd, cd] of [[undefined, undefined], [{}, {}], [{ cache_read: x }, undefined], [{ cache_read: x, audio: y }, { reasoning: z }], [undefined, { reasoning: x, audio: y, other: z }]]) {
        const usage_metadata = { input_tokens: it, output_tokens: ot, total_tokens: tt };
        if (pd) usage_metadata.input_token_details = pd;
        if (cd) usage_metadata.output_token_details = cd;
        const s = await chat(p, [[]], { generations: [[{ text: "", message: new C({ content: "", usage_metadata }) }]], llmOutput: { tokenUsage: { promptTokens: 1, completionTokens: 1, totalTokens: 2 } } });
        const u = parse(O(s, "usage_details"));
        const pv = Object.values(pd ?? {}), cv = Object.values(cd ?? {});
        $.assert("input tokens are those without a finer kind, never negative", u.input === pos(it - pv.reduce((m, v) => m + v, 0)));
        $.assert("output tokens are those without a finer kind, never negative", u.output === pos(ot - cv.reduce((m, v) => m + v, 0)));
        $.assert("the total is the reported one", u.total === tt);
        $.assert("finer kinds keep their counts", Object.keys(pd ?? {}).every((k) => u["input_" + k] === pd[k]) && Object.keys(cd ?? {}).every((k) => u["output_" + k] === cd[k]));
        $.assert("and there is nothing else", Object.keys(u).length === 3 + pv.length + cv.length);
        $.same("the message's own usage is left alone", usage_metadata, { input_tokens: it, output_tokens: ot, total_tokens: tt, ...(pd ? { input_token_details: pd } : {}), ...(cd ? { output_token_details: cd } : {}) });
      }
  },
  usageTotals: async ($, T) => {
    const p = setupOtel();
    const it = $.in("it", T.range(0, 1000000)), ot = $.in("ot", T.range(0, 1000000)), tt = $.in("tt", T.range(0, 2000000));
    for (const g of [{ text: "x" }, { text: "x", message: new AIMessage("x") }, { text: "x", message: new HumanMessage("x") }])
      $.same("counts of the whole call where the message has none", parse(O(await llm(p, ["q"], { generations: [[g]], llmOutput: { tokenUsage: { promptTokens: it, completionTokens: ot, totalTokens: tt } } }), "usage_details")), { input: it, output: ot, total: tt });
    $.same("no counts", parse(O(await llm(p, ["q"], { generations: [[{ text: "x" }]] }), "usage_details")), {});
  },
};
