/*META {"trusted":["the OpenAI SDK object (harness stub with plain methods, promises and async iterables)","harness tracer provider and span (specs/lib/otel.js)"],"assumptions":["usage detail objects have up to three entries in the proved units (names and values unrestricted)","floating-point token counts are treated as reals"]} */
import { observeOpenAI } from "@repo/packages/openai/src/index.ts";
import { setupOtel } from "./lib/otel.js";
const O = (s, k) => s.attributes["langfuse.observation." + k];
async function* chunksOf(list) { for (const c of list) yield c; }
// the generation recorded for one call answered with `res`; mode "promise" | "stream" | "responses"
async function record(p, req, res, cfg) {
  p.spans.length = 0;
  const sdk = { chat: { create: async () => res } };
  await observeOpenAI(sdk, cfg).chat.create(req);
  return p.spans[0];
}
async function recordStream(p, req, list) {
  p.spans.length = 0;
  const sdk = { chat: { create: async () => chunksOf(list) } };
  for await (const c of await observeOpenAI(sdk).chat.create(req)) void c;
  return p.spans[0];
}
const parse = (x) => (x === undefined ? undefined : JSON.parse(x));
export const units = {
  requestInput: async ($, T) => {
    const p = setupOtel();
    const q = $.in("q", T.str), r = $.in("r", T.str), pr = $.in("pr", T.strOf({ nonEmpty: true })), nm = $.in("nm", T.str), model = $.in("model", T.strOf({ nonEmpty: true }));
    const messages = [{ role: "system", content: r }, { role: "user", content: [{ type: "text", text: q }] }];
    const tools = [{ type: "function", function: { name: nm } }];
    for (const extra of [{}, { tools }, { tools, tool_choice: "auto" }, { tool_choice: nm }, { functions: [{ name: nm }], function_call: "none" }, { function_call: { name: nm } }, { functions: [], tools: [] }]) {
      const s = await record(p, { model, messages, ...extra, stream: false }, {});
      $.same("chat: messages and tools, nothing else", parse(O(s, "input")), { messages, ...extra });
      $.assert("model", O(s, "model.name") === model);
    }
    $.same("an empty conversation", parse(O(await record(p, { messages: [], prompt: pr, input: pr }, {}), "input")), { messages: [] });
    $.assert("prompt", O(await record(p, { model, prompt: pr }, {}), "input") === pr);
    $.same("prompts", parse(O(await record(p, { prompt: [pr, q] }, {}), "input")), [pr, q]);
    $.assert("input", O(await record(p, { input: pr }, {}), "input") === pr);
    $.assert("input before prompt", O(await record(p, { prompt: q, input: pr }, {}), "input") === pr);
    $.assert("prompt in place of an empty input", O(await record(p, { prompt: pr, input: "" }, {}), "input") === pr);
    $.same("inputs", parse(O(await record(p, { input: [{ role: "user", content: q }] }, {}), "input")), [{ role: "user", content: q }]);
    $.assert("no input", O(await record(p, { model }, {}), "input") === undefined && O(await record(p, undefined, {}), "input") === undefined);
  },
  requestParams: async ($, T) => {
    const p = setupOtel();
    const n = $.in("n", T.num), b = $.in("b", T.bool), u = $.in("u", T.str);
    const all = { frequency_penalty: n, logit_bias: { a: n }, logprobs: b, max_tokens: n, n: 2, presence_penalty: n, seed: 7, stop: [u], stream: b, temperature: n, top_p: n, user: u, top_logprobs: 3 };
    let s = await record(p, { model: "m", messages: [], ...all, response_format: { type: "json_schema", json_schema: { name: u } }, other: 1, api_key: "secret" }, {});
    $.same("every parameter with its value", parse(O(s, "model.parameters")), { ...all, response_format: "" });
    $.same("the response format is metadata", parse(O(s, "metadata.response_format")), { type: "json_schema", json_schema: { name: u } });
    for (const w of [undefined, n]) {
    s = await record(p, { model: "m", input: "x", temperature: w, top_p: 0 }, {});
    $.same("parameters not given are absent", parse(O(s, "model.parameters")), w === undefined ? { top_p: 0, response_format: "" } : { temperature: w, top_p: 0, response_format: "" });
    $.assert("no response format, no metadata", O(s, "metadata.response_format") === undefined);
    }
  },
  outputs: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.str), n = $.in("n", T.num);
    const out = async (res) => O(await record(p, { model: "m" }, res), "output");
    $.same("chat message", parse(await out({ choices: [{ index: 0, message: { role: "assistant", content: b, tool_calls: [{ id: a }] } }, { message: "second" }] })), { role: "assistant", content: b, tool_calls: [{ id: a }] });
    $.assert("completion text", (await out({ choices: [{ text: a }] })) === a);
    $.assert("response text", (await out({ output_text: a, output: [{ type: "message" }] })) === a);
    $.same("one output item", parse(await out({ output: [{ type: "message", content: b }] })), { type: "message", content: b });
    $.same("one output item without text", parse(await out({ output_text: "", output: [{ type: "function_call", name: b }] })), { type: "function_call", name: b });
    $.same("several output items", parse(await out({ output_text: "", output: [{ n }, { b }, 3] })), [{ n }, { b }, 3]);
    $.assert("no output", [undefined, ""].includes(await out({ output: [] })) && [undefined, ""].includes(await out({ data: [{ embedding: [n] }] })) && [undefined, ""].includes(await out({ choices: [] })));
  },
  usageChat: async ($, T) => {
    const p = setupOtel();
    const pt = $.in("pt", T.range(0, 1000000)), ct = $.in("ct", T.range(0, 1000000)), tt = $.in("tt", T.range(0, 2000000)), x = $.in("x", T.range(0, 1000000)), y = $.in("y", T.range(0, 1000000)), z = $.in("z", T.range(0, 1000000));
    const pos = (v) => (v > 0 ? v : 0);
    for (const kind of ["promise", "stream"])
      for (const [pd, cd] of [[undefined, undefined], [null, null], [{}, {}], [{ cached_tokens: x }, undefined], [{ cached_tokens: x, audio_tokens: y }, { reasoning_tokens: z }], [undefined, { reasoning_tokens: x, audio_tokens: y, accepted_prediction_tokens: z }]]) {
        const usage = { prompt_tokens: pt, completion_tokens: ct, total_tokens: tt };
        if (pd !== undefined) usage.prompt_tokens_details = pd;
        if (cd !== undefined) usage.completion_tokens_details = cd;
        const s = kind === "promise" ? await record(p, {}, { usage }) : await recordStream(p, {}, [{ choices: [], usage: null }, { choices: [], usage }]);
        const u = parse(O(s, "usage_details"));
        const pv = Object.values(pd ?? {}), cv = Object.values(cd ?? {});
        const psum = pv.reduce((m, v) => m + v, 0), csum = cv.reduce((m, v) => m + v, 0);
        $.assert("input tokens are those without a finer kind, never negative", u.input === pos(pt - psum) && u.input >= 0);
        $.assert("output tokens are those without a finer kind, never negative", u.output === pos(ct - csum) && u.output >= 0);
        $.assert("the total is the reported one", u.total === tt);
        $.assert("finer kinds keep their counts", Object.keys(pd ?? {}).every((k) => u["input_" + k] === pd[k]) && Object.keys(cd ?? {}).every((k) => u["output_" + k] === cd[k]));
        $.assert("and there is nothing else", Object.keys(u).length === 3 + pv.length + cv.length);
        if (psum <= pt && csum <= ct) $.assert("nothing is counted twice", u.input + psum === pt && u.output + csum === ct);
      }
  },
  usageResponses: async ($, T) => {
    const p = setupOtel();
    const it = $.in("it", T.range(0, 1000000)), ot = $.in("ot", T.range(0, 1000000)), tt = $.in("tt", T.range(0, 2000000)), x = $.in("x", T.range(0, 1000000)), y = $.in("y", T.range(0, 1000000)), z = $.in("z", T.range(0, 1000000));
    const pos = (v) => (v > 0 ? v : 0);
    for (const kind of ["promise", "stream"])
      for (const [pd, cd] of [[undefined, undefined], [null, null], [{ cached_tokens: x }, { reasoning_tokens: y }], [{ cached_tokens: x, audio_tokens: y }, { reasoning_tokens: z }], [{}, { reasoning_tokens: x, audio_tokens: y, other: z }]]) {
        const usage = { input_tokens: it, output_tokens: ot, total_tokens: tt };
        if (pd !== undefined) usage.input_tokens_details = pd;
        if (cd !== undefined) usage.output_tokens_details = cd;
        const s = kind === "promise" ? await record(p, {}, { usage }) : await recordStream(p, {}, [{ type: "response.created", response: {} }, { type: "response.completed", response: { usage } }]);
        const u = parse(O(s, "usage_details"));
        const pv = Object.values(pd ?? {}), cv = Object.values(cd ?? {});
        const psum = pv.reduce((m, v) => m + v, 0), csum = cv.reduce((m, v) => m + v, 0);
        $.assert("input tokens are those without a finer kind, never negative", u.input === pos(it - psum));
        $.assert("output tokens are those without a finer kind, never negative", u.output === pos(ot - csum));
        $.assert("the total is the reported one", u.total === tt);
        $.assert("finer kinds keep their counts", Object.keys(pd ?? {}).every((k) => u["input_" + k] === pd[k]) && Object.keys(cd ?? {}).every((k) => u["output_" + k] === cd[k]));
        $.assert("and there is nothing else", Object.keys(u).length === 3 + pv.length + cv.length);
      }
  },
  usageKept: async ($, T) => {
    const p = setupOtel();
    const n = $.in("n", T.range(0, 1000)), m = $.in("m", T.range(0, 1000)), t = $.in("t", T.str);
    const usage = { prompt_tokens: n, completion_tokens: m, total_tokens: n + m }, text = { choices: [{ delta: { content: t } }] };
    for (const list of [[{ ...text, usage }, text, text], [text, { choices: [], usage }, text], [{ choices: [], usage }], [{ choices: [], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }, { choices: [], usage }, {}]])
      $.same("counts reported on any chunk are kept", parse(O(await recordStream(p, {}, list), "usage_details")), { input: n, output: m, total: n + m });
  },
  usageMissing: async ($, T) => {
    const p = setupOtel();
    const n = $.in("n", T.range(0, 1000));
    for (const usage of [undefined, null, {}, { prompt_tokens: n }, { input_tokens: n, output_tokens: n }, { prompt_tokens: "1", completion_tokens: n, total_tokens: n }, n]) {
      const s = await record(p, {}, usage === undefined ? {} : { usage });
      $.assert("incomplete counts are not recorded, the call is", O(s, "usage_details") === undefined && s.endCount === 1 && O(s, "level") === undefined);
    }
  },
  answerModel: async ($, T) => {
    const p = setupOtel();
    const m = $.in("m", T.strOf({ nonEmpty: true })), asked = $.in("asked", T.strOf({ nonEmpty: true })), st = $.in("st", T.strOf({ nonEmpty: true })), n = $.in("n", T.num), b = $.in("b", T.bool);
    for (const kind of ["promise", "stream"]) {
      const go = (req, res) => (kind === "promise" ? record(p, req, res) : recordStream(p, req, [{ response: res }]));
      let s = await go({ model: asked, input: "q", temperature: 1 }, { model: m, max_output_tokens: n, parallel_tool_calls: b, store: false, temperature: 0, tool_choice: "auto", top_p: n, truncation: st, user: null, status: st, error: null, incomplete_details: null, instructions: st, previous_response_id: "", metadata: { k: st }, reasoning: { effort: st }, tools: [st], other: 1 });
      $.assert("the model that answered", O(s, "model.name") === m);
      $.same("the parameters used", parse(O(s, "model.parameters")), { max_output_tokens: n, parallel_tool_calls: b, store: false, temperature: 0, tool_choice: "auto", top_p: n, truncation: st });
      $.assert("status and instructions", O(s, "metadata.status") === st && O(s, "metadata.instructions") === st && O(s, "metadata.error") === undefined && O(s, "metadata.previous_response_id") === undefined && O(s, "metadata.other") === undefined);
      $.same("reasoning", parse(O(s, "metadata.reasoning")), { effort: st });
      $.same("tools", parse(O(s, "metadata.tools")), [st]);
      s = await go({ model: asked, input: "q", temperature: n }, { output: [] });
      $.assert("the asked model when the answer names none", O(s, "model.name") === asked);
      $.same("and the asked parameters", parse(O(s, "model.parameters")), { temperature: n, response_format: "" });
    }
  },
  streamText: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.str), b = $.in("b", T.str), c = $.in("c", T.strOf({ nonEmpty: true }));
    for (const f of [(t) => ({ choices: [{ delta: { content: t } }] }), (t) => ({ choices: [{ text: t }] }), (t) => ({ choices: [{ delta: { role: "assistant", content: t, tool_calls: null } }] })]) {
      $.assert("the text is that of the chunks in order", O(await recordStream(p, {}, [f(a), f(b), f(c)]), "output") === a + b + c);
      $.assert("chunks without text add none", O(await recordStream(p, {}, [f(a), f(null), f(c), { choices: [] }, {}, { choices: [{}] }, { choices: [{ delta: {} }] }]), "output") === a + c);
    }
  },
};
