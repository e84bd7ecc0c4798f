/*META {"trusted":["the OpenAI SDK object (harness stub with plain methods, promises and async iterables)","@opentelemetry/api 1.9 (interpreted, not modelled)","harness tracer provider and span (specs/lib/otel.js)"],"assumptions":["streams have up to three chunks in the proved units (contents, failure and stop points unrestricted)","a call's result is a promise or an async iterable (other results are passed through and not traced to an end)"]} */
import { oddValues } from "./lib/odd.js";
import { observeOpenAI } from "@repo/packages/openai/src/index.ts";
import { setupOtel, trace, context } from "./lib/otel.js";
const A = (s, k) => s.attributes["langfuse." + k];
const O = (s, k) => s.attributes["langfuse.observation." + k];
class Client {
  constructor(f) { this.label = "sdk"; this.items = [1, 2]; this.when = new Date(5); this.n = null; this.count = 0; this.chat = { label: "chat", completions: { label: "completions", create: f, list: f } }; this.embeddings = { create: f }; }
  direct(...a) { this.count++; return this.chat.completions.create.call(this, ...a); }
  get flag() { return this.label + "!"; }
}
async function* chunksOf(list, o = {}) {
  let i = 0;
  try { for (const c of list) { if (o.failAt === i) throw o.err; i++; if (o.pulled) o.pulled.push(c); yield c; } if (o.failAt === i) throw o.err; } finally { if (o.closed) o.closed.push(i); }
}
const text = (c, extra) => ({ choices: [{ delta: { content: c } }], ...extra });
const tool = (list) => ({ choices: [{ delta: { tool_calls: list } }] });
export const units = {
  call: async ($, T) => {
    const p = setupOtel();
    const model = $.in("model", T.strOf({ nonEmpty: true })), q = $.in("q", T.str), temp = $.in("temp", T.num), ans = $.in("ans", T.str), x = $.in("x", T.or(T.str, T.num, T.nul));
    for (const path of ["nested", "direct"]) {
      p.spans.length = 0;
      const calls = [], result = { id: "r", choices: [{ message: { role: "assistant", content: ans } }], x };
      let during;
      const sdk = new Client(async function (...a) { calls.push({ self: this, a }); during = p.spans.map((s) => s.endCount); await null; return result; });
      const before = trace.getActiveSpan();
      const req = { model, messages: [{ role: "user", content: q }], temperature: temp }, opts = { headers: {} };
      const w = observeOpenAI(sdk);
      const pr = path === "nested" ? w.chat.completions.create(req, opts) : w.direct(req, opts);
      $.assert("a promise is returned", pr instanceof Promise);
      const r = await pr;
      $.assert("the very result is returned", r === result);
      $.assert("called once with the same arguments and receiver", calls.length === 1 && calls[0].a.length === 2 && calls[0].a[0] === req && calls[0].a[1] === opts && calls[0].self === (path === "nested" ? sdk.chat.completions : sdk));
      $.same("the request is left alone", req, { model, messages: [{ role: "user", content: q }], temperature: temp });
      $.assert("one generation, running during the call, ended once after it", p.spans.length === 1 && during.length === 1 && during[0] === 0 && p.spans[0].endCount === 1 && p.spans[0].writesAfterEnd === 0);
      const s = p.spans[0];
      $.assert("named after the method", typeof s.name === "string" && s.name.startsWith("Client."));
      $.assert("generation with model", O(s, "type") === "generation" && O(s, "model.name") === model);
      $.assert("input", O(s, "input") === JSON.stringify({ messages: [{ role: "user", content: q }] }));
      $.same("parameters", JSON.parse(O(s, "model.parameters")), { temperature: temp, response_format: "" });
      $.assert("output", O(s, "output") === JSON.stringify({ role: "assistant", content: ans }));
      $.assert("no error", O(s, "level") === undefined && O(s, "status_message") === undefined);
      $.assert("the caller's context is unchanged", trace.getActiveSpan() === before);
    }
  },
  failure: async ($, T) => {
    const p = setupOtel();
    const msg = $.in("msg", T.strOf({ nonEmpty: true })), isErr = $.in("isErr", T.bool), sync = $.in("sync", T.bool);
    const err = isErr ? new Error(msg) : msg;
    const sdk = new Client(function () { if (sync) throw err; return Promise.reject(err); });
    let caught, n = 0, thrown = false;
    try { const r = observeOpenAI(sdk).chat.completions.create({ model: "m", messages: [] }); thrown = false; await r.then(() => { n++; }); } catch (e) { caught = e; thrown = true; }
    $.assert("the very error reaches the caller", thrown && caught === err && n === 0);
    const s = p.spans[0];
    $.assert("the generation ends once as an error with the message", p.spans.length === 1 && s.endCount === 1 && s.writesAfterEnd === 0 && O(s, "level") === "ERROR");
    $.assert("message", O(s, "status_message") === (isErr ? "Error: " + msg : msg));
    $.same("without cost", JSON.parse(O(s, "cost_details")), { input: 0, output: 0, total: 0 });
  },
  errorKinds: async ($, T) => {
    const msg = $.in("msg", T.strOf({ nonEmpty: true }));
    class APIUserAbortError extends Error { constructor(m) { super(m); this.name = "APIUserAbortError"; } }
    for (const name of ["AbortError", "TimeoutError", "APIConnectionError", "RateLimitError", "class"]) for (const status of [undefined, 400, 429, 500]) for (const sync of [false, true]) {
      const p = setupOtel(), err = name === "class" ? new APIUserAbortError(msg) : new Error(msg);
      if (name !== "class") err.name = name;
      if (status !== undefined) { err.status = status; err.code = "c" + status; }
      let caught;
      try { await observeOpenAI(new Client(() => { if (sync) throw err; return Promise.reject(err); })).chat.completions.create({ model: "m", messages: [] }); } catch (e) { caught = e; }
      $.assert("whatever kind of error, it reaches the caller", caught === err);
      $.assert("and ends the generation as an error with the message", p.spans.length === 1 && p.spans[0].endCount === 1 && O(p.spans[0], "level") === "ERROR" && O(p.spans[0], "status_message") === String(err));
    }
  },
  firstChunk: { clock: 1700000000000, run: async ($, T) => {
    for (const n of [1, 2, 3]) {
    const t0 = $.now(), p = setupOtel(), gates = [0, 1, 2, 3].map(() => $.deferred());
    const st = await observeOpenAI(new Client(async () => (async function* () { for (let i = 0; i < n; i++) { await gates[i].promise; yield text("x"); } await gates[n].promise; })())).chat.completions.create({ model: "m", messages: [], stream: true });
    const all = (async () => { for await (const ch of st); })();
    for (let i = 0; i <= n; i++) { await $.advance(1000); gates[i].resolve(); await $.drain(); }
    await all;
    $.same("the answer started with its first chunk", new Date(JSON.parse(O(p.spans[0], "completion_start_time"))).getTime(), t0 + 1000);
    }
  } },
  anyThrown: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true }));
    for (const err of oddValues()) for (const how of ["sync", "async", "stream"]) {
      p.spans.length = 0;
      let caught = "nothing", n = 0;
      const sdk = new Client(how === "stream" ? async () => chunksOf([text(a)], { failAt: 1, err }) : function () { if (how === "sync") throw err; return Promise.reject(err); });
      try { const r = await observeOpenAI(sdk).chat.completions.create({ model: "m", messages: [], stream: how === "stream" }); for await (const ch of r) n++; } catch (e) { caught = e; }
      $.assert(how + ": whatever the SDK throws reaches the caller", (caught === err || Object.is(caught, err)) && n === (how === "stream" ? 1 : 0));
      const s = p.spans[0];
      $.assert(how + ": and the generation ends once as an error", p.spans.length === 1 && s.endCount === 1 && s.writesAfterEnd === 0 && O(s, "level") === "ERROR");
    }
  },
  odd: async ($, T) => {
    const p = setupOtel();
    const v = $.in("v", T.or(T.str, T.num, T.bool, T.nul, T.undef));
    for (const res of [v, {}, { choices: [] }, { choices: [{}] }, { choices: [{ text: "t" }] }, { choices: null }, { output: [] }, { usage: null }, { usage: {} }, [], { choices: [null] }, { model: null }]) {
      p.spans.length = 0;
      for (const args of [[], [undefined], [null], ["id"], [{ model: "m" }], [{ messages: null }]]) {
        const got = await observeOpenAI(new Client(async () => res)).embeddings.create(...args);
        $.assert("any result is passed through", got === res || Object.is(got, res));
      }
      $.assert("and each call ends its generation, not as an error", p.spans.length === 6 && p.spans.every((s) => s.endCount === 1 && O(s, "level") === undefined));
    }
  },
  plain: ($, T) => {
    setupOtel();
    const v = $.in("v", T.or(T.str, T.num, T.bool, T.nul, T.undef)), obj = { on: () => {}, k: v };
    for (const res of [v, obj, [v]]) {
      const sdk = new Client(function (...a) { return a.length === 2 && a[1] === v || Object.is(a[1], v) ? res : "lost"; }), w = observeOpenAI(sdk);
      for (const got of [w.chat.completions.create({ model: "m" }, v), w.direct({ model: "m" }, v)]) $.assert("a result that is neither promise nor stream is passed through", got === res || Object.is(got, res));
    }
  },
  config: async ($, T) => {
    const p = setupOtel();
    const name = $.in("name", T.strOf({ nonEmpty: true })), user = $.in("user", T.strOf({ nonEmpty: true })), md = $.in("md", T.strOf({ nonEmpty: true })), fb = $.in("fb", T.bool), ver = $.in("ver", T.range(1, 1000));
    $.assume(user.length <= 200); $.assume(ver === Math.floor(ver));
    const parentSpanContext = { traceId: "0123456789abcdef0123456789abcdef", spanId: "0123456789abcdef", traceFlags: 1 };
    const cfg = { generationName: name, userId: user, sessionId: "s1", tags: ["a", "b"], traceName: "tn", generationMetadata: { k: md, n: 1 }, langfusePrompt: { name: "pr", version: ver, isFallback: fb }, parentSpanContext };
    const sdk = new Client(async () => ({ choices: [] }));
    const w = observeOpenAI(sdk, cfg);
    for (const f of [() => w.chat.completions.create({ model: "m", response_format: { type: "json_object" } }), () => w.direct({ model: "m", response_format: { type: "json_object" } }), () => w.embeddings.create({ model: "m", response_format: { type: "json_object" } })]) {
      p.spans.length = 0;
      let started;
      p.onStart = (s, c) => { started = c; };
      await f();
      const s = p.spans[0];
      $.assert("configured name", s.name === name);
      $.assert("configured parent", s.parentCtx !== undefined && s.parentCtx.traceId === parentSpanContext.traceId && s.parentCtx.spanId === parentSpanContext.spanId);
      $.assert("configured metadata", O(s, "metadata.k") === md && O(s, "metadata.n") === "1" && O(s, "metadata.response_format") === JSON.stringify({ type: "json_object" }));
      $.assert("configured prompt unless a fallback", O(s, "prompt.name") === (fb ? undefined : "pr") && O(s, "prompt.version") === (fb ? undefined : ver));
      $.cover("prompt");
    }
  },
  rewrapped: async ($, T) => {
    const p = setupOtel();
    const n1 = $.in("n1", T.strOf({ nonEmpty: true })), n2 = $.in("n2", T.strOf({ nonEmpty: true })), m1 = $.in("m1", T.strOf({ nonEmpty: true })), m2 = $.in("m2", T.strOf({ nonEmpty: true }));
    const answers = [{ choices: [] }, { choices: [] }, { choices: [] }];
    let i = 0;
    const sdk = new Client(async () => answers[i++]);
    const cfg = { generationName: n1, generationMetadata: { k: m1 } };
    const w = [observeOpenAI(sdk, cfg), observeOpenAI(sdk, { generationName: n2, generationMetadata: { k: m2 } }), observeOpenAI(sdk)];
    $.assert("the client and the settings are left alone", sdk.chat.completions.create !== w[0].chat.completions.create && sdk.chat !== w[0].chat && cfg.generationName === n1);
    for (const path of ["nested", "direct"]) for (const order of [[0, 1, 2], [2, 1, 0]]) {
      p.spans.length = 0; i = 0;
      for (const k of order) { const r = path === "nested" ? await w[k].chat.completions.create({ model: "m" + k }) : await w[k].direct({ model: "m" + k }); $.assert("its own answer", r === answers[i - 1]); }
      $.assert("one generation per call", p.spans.length === 3 && p.spans.every((s) => s.endCount === 1));
      order.forEach((k, j) => { const s = p.spans[j]; $.assert("with the settings of the wrapper called", O(s, "model.name") === "m" + k && (k === 2 ? s.name.startsWith("Client.") : s.name === [n1, n2][k]) && O(s, "metadata.k") === [m1, m2, undefined][k]); });
    }
  },
  repeated: async ($, T) => {
    const p = setupOtel();
    const q1 = $.in("q1", T.strOf({ nonEmpty: true })), q2 = $.in("q2", T.strOf({ nonEmpty: true })), a1 = $.in("a1", T.strOf({ nonEmpty: true })), a2 = $.in("a2", T.strOf({ nonEmpty: true }));
    const ans = (t) => ({ choices: [{ message: t }], model: "ans-" + t });
    for (const ends of ["ok", "fail", "stream", "streamFails"]) {
      p.spans.length = 0;
      const bad = new Error("bad");
      let n = 0;
      const sdk = new Client((r) => { n++; if (n === 2) return Promise.resolve(ans(a2)); return ends === "ok" ? Promise.resolve(ans(a1)) : ends === "fail" ? Promise.reject(bad) : Promise.resolve(chunksOf([text(a1)], ends === "stream" ? {} : { failAt: 1, err: bad })); });
      const w = observeOpenAI(sdk), create = w.chat.completions.create;
      try { const r = await create({ model: "m1", prompt: q1, temperature: 1 }); if (ends.startsWith("stream")) for await (const x of r) ; } catch (e) { $.assert("only the SDK's errors", e === bad); }
      const r2 = await create({ model: "m2", prompt: q2 });
      const [s, t] = p.spans;
      $.assert("each call its own generation", p.spans.length === 2 && n === 2 && s.endCount === 1 && t.endCount === 1);
      $.assert("a method may be kept and called again", O(s, "input") === q1 && O(t, "input") === q2 && O(t, "output") === a2 && O(t, "model.name") === "ans-" + a2 && O(t, "level") === undefined && O(t, "status_message") === undefined && r2.choices[0].message === a2);
      $.same("parameters of its own request", JSON.parse(O(t, "model.parameters")), { response_format: "" });
    }
  },
  propagated: async ($, T) => {
    const p = setupOtel();
    const user = $.in("user", T.strOf({ nonEmpty: true }));
    $.assume(user.length <= 200);
    const sdk = new Client(async () => { const inner = trace.getTracer("x").startSpan("http"); inner.end(); return {}; });
    const seen = [];
    p.onStart = (s, c) => { const vals = {}; for (const k of ["langfuse_user_id", "langfuse_session_id"]) vals[k] = null; seen.push(c); };
    await observeOpenAI(sdk, { userId: user, sessionId: "s1" }).embeddings.create({});
    const { getPropagatedAttributesFromContext } = await import("@repo/packages/core/src/propagation.ts");
    $.assert("user and session apply to the generation and the spans of the call", seen.length === 2 && seen.every((c) => { const a = getPropagatedAttributesFromContext(c); return a["user.id"] === user && a["session.id"] === "s1"; }));
    $.same("and to nothing else", getPropagatedAttributesFromContext(context.active()), {});
  },
  props: ($, T) => {
    const p = setupOtel();
    const v = $.in("v", T.or(T.str, T.num, T.bool, T.nul, T.undef));
    const sdk = new Client(async () => 1);
    sdk.v = v; sdk.chat.v = v;
    const w = observeOpenAI(sdk);
    $.assert("plain properties are those of the SDK", (w.v === v || Object.is(w.v, v)) && (w.chat.v === v || Object.is(w.chat.v, v)) && w.label === "sdk" && w.items === sdk.items && w.when === sdk.when && w.n === null && w.missing === undefined && w.flag === "sdk!" && w.chat.label === "chat");
    w.label = "changed"; w.chat.extra = 7;
    $.assert("writes reach the SDK", sdk.label === "changed" && sdk.chat.extra === 7 && w.label === "changed");
    $.assert("it is still the SDK's kind", w instanceof Client && "chat" in w && !("nope" in w));
    $.assert("nothing is traced", p.spans.length === 0);
  },
  stream: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.str), b = $.in("b", T.str), c = $.in("c", T.str), pt = $.in("pt", T.range(0, 1000)), ct = $.in("ct", T.range(0, 1000));
    for (const how of ["promise", "direct"]) for (const list of [[], [text(a)], [text(a), text(b), text(c, { usage: { prompt_tokens: pt, completion_tokens: ct, total_tokens: pt + ct } })], [{ choices: [{ text: a }] }, { choices: [{ text: b }] }], [text(a), { choices: [] }, text(null), { choices: [], usage: { prompt_tokens: pt, completion_tokens: ct, total_tokens: 5 } }], [text(a, { usage: null }), null, 5, "s", text(b)]]) {
      p.spans.length = 0;
      const src = chunksOf(list);
      const sdk = new Client(how === "promise" ? async () => src : () => src);
      const r0 = observeOpenAI(sdk).chat.completions.create({ model: "m", messages: [], stream: true });
      const st = how === "promise" ? await r0 : r0;
      const got = [];
      for await (const ch of st) { got.push(ch); $.assert("the generation runs while the stream does", p.spans.length === 1 && p.spans[0].endCount === 0); }
      $.assert("the same chunks in the same order", got.length === list.length && got.every((x, i) => x === list[i]));
      const s = p.spans[0];
      $.assert("then it ends, once", s.endCount === 1 && s.writesAfterEnd === 0 && p.spans.length === 1 && O(s, "level") === undefined);
      const t1 = list.map((ch) => (ch && typeof ch === "object" && ch.choices[0] ? (ch.choices[0].text ?? ch.choices[0].delta.content ?? "") : "")).join("");
      $.assert("output is the whole text", O(s, "output") === (t1 === "" ? undefined : t1) || (t1 === "" && O(s, "output") === ""));
      const u = list.map((ch) => ch && ch.usage).filter((x) => x)[0];
      if (u) $.same("usage", JSON.parse(O(s, "usage_details")), { input: pt, output: ct, total: u.total_tokens });
      else $.assert("no usage", O(s, "usage_details") === undefined);
      $.assert("start of the answer is recorded iff there was one", (O(s, "completion_start_time") !== undefined) === (list.length > 0));
    }
  },
  streamTools: async ($, T) => {
    const p = setupOtel();
    const n1 = $.in("n1", T.strOf({ nonEmpty: true })), n2 = $.in("n2", T.strOf({ nonEmpty: true })), x = $.in("x", T.str), y = $.in("y", T.str), z = $.in("z", T.str);
    const f = (index, name, args) => ({ index, function: { name, arguments: args } });
    for (const [list, want] of [
      [[tool([f(0, n1, "")]), tool([f(0, undefined, x)]), tool([f(0, undefined, y)])], [[n1, x + y]]],
      [[tool([f(0, n1, x)]), tool([f(1, n2, y)])], [[n1, x], [n2, y]]],
      [[tool([f(0, n1, x), f(1, n2, y)]), tool([f(1, undefined, z)]), tool([f(0, undefined, z)])], [[n1, x + z], [n2, y + z]]],
      [[tool([f(0, n1, x)]), tool([]), { choices: [{ delta: {}, finish_reason: "tool_calls" }] }], [[n1, x]]],
      [[tool([f(0, n1, x)]), tool([f(0, "", z)]), tool([f(0, null, "")])], [[n1, x + z]]],
      [[tool([{ index: 0, function: { name: n1 } }]), tool([{ index: 0, function: { arguments: x } }])], [[n1, x]]],
    ]) {
      p.spans.length = 0;
      const got = [];
      for await (const ch of await observeOpenAI(new Client(async () => chunksOf(list))).chat.completions.create({ stream: true })) got.push(ch);
      const s = p.spans[0];
      $.assert("all chunks, one ended generation", got.length === list.length && p.spans.length === 1 && s.endCount === 1 && O(s, "level") === undefined);
      $.same("every tool call with its own name and arguments", JSON.parse(O(s, "output")).tool_calls.map((c) => [c.function.name, c.function.arguments]), want);
    }
    p.spans.length = 0;
    const got = [];
    for await (const ch of await observeOpenAI(new Client(async () => chunksOf([{ choices: [{ delta: { content: n1, tool_calls: [] } }] }, { choices: [{ delta: { content: n2, tool_calls: [] } }] }]))).chat.completions.create({ stream: true })) got.push(ch);
    $.assert("empty tool call lists are not tool calls", got.length === 2 && O(p.spans[0], "output") === n1 + n2 && p.spans[0].endCount === 1);
  },
  streamFails: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.strOf({ nonEmpty: true })), msg = $.in("msg", T.strOf({ nonEmpty: true }));
    for (const failAt of [0, 1, 2]) {
      p.spans.length = 0;
      const err = new Error(msg), got = [];
      let caught;
      try { for await (const ch of await observeOpenAI(new Client(async () => chunksOf([text(a), text(b)], { failAt, err }))).chat.completions.create({ stream: true })) got.push(ch); } catch (e) { caught = e; }
      $.assert("the very error after the chunks before it", caught === err && got.length === failAt);
      const s = p.spans[0];
      $.assert("the generation ends once as an error", p.spans.length === 1 && s.endCount === 1 && s.writesAfterEnd === 0 && O(s, "level") === "ERROR" && O(s, "status_message") === "Error: " + msg);
      $.assert("with the output so far", failAt === 0 || O(s, "output") === (failAt === 1 ? a : a + b));
    }
  },
  streamStops: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.strOf({ nonEmpty: true })), c = $.in("c", T.str);
    for (const stopAt of [1, 2, 3]) {
      p.spans.length = 0;
      const pulled = [], closed = [];
      let n = 0;
      for await (const ch of await observeOpenAI(new Client(async () => chunksOf([text(a), text(b), text(c)], { pulled, closed }))).chat.completions.create({ stream: true })) if (++n === stopAt) break;
      $.assert("stopping stops the source", pulled.length === stopAt && closed.length === 1);
      const s = p.spans[0];
      $.assert("and ends the generation once, not as an error", p.spans.length === 1 && s.endCount === 1 && s.writesAfterEnd === 0 && O(s, "level") === undefined);
      $.assert("with the output so far", O(s, "output") === (stopAt === 1 ? a : stopAt === 2 ? a + b : a + b + c));
    }
    p.spans.length = 0;
    const mine = new Error("mine");
    let caught;
    try { for await (const ch of await observeOpenAI(new Client(async () => chunksOf([text(a), text(b)]))).chat.completions.create({ stream: true })) throw mine; } catch (e) { caught = e; }
    $.assert("an error of the consumer is its own", caught === mine && p.spans[0].endCount === 1 && O(p.spans[0], "level") === undefined);
  },
  responsesStream: async ($, T) => {
    const p = setupOtel();
    const m = $.in("m", T.strOf({ nonEmpty: true })), a = $.in("a", T.strOf({ nonEmpty: true })), it = $.in("it", T.range(0, 1000)), ot = $.in("ot", T.range(0, 1000));
    const list = [{ type: "response.created", response: { model: "early", output: [] } }, { type: "response.output_text.delta", delta: "x" }, { type: "response.completed", response: { model: m, output_text: a, temperature: 0.5, status: "completed", usage: { input_tokens: it, output_tokens: ot, total_tokens: it + ot } } }];
    const got = [];
    for await (const ch of await observeOpenAI(new Client(async () => chunksOf(list))).direct({ input: "q", model: "asked", stream: true })) got.push(ch);
    const s = p.spans[0];
    $.assert("same chunks", got.length === 3 && got.every((x, i) => x === list[i]));
    $.assert("model, output and status of the final response", O(s, "model.name") === m && O(s, "output") === a && O(s, "metadata.status") === "completed" && s.endCount === 1);
    $.same("usage of the final response", JSON.parse(O(s, "usage_details")), { input: it, output: ot, total: it + ot });
    $.same("parameters of the final response", JSON.parse(O(s, "model.parameters")), { temperature: 0.5 });
  },
  concurrent: async ($, T) => {
    const p = setupOtel();
    const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.strOf({ nonEmpty: true })), first = $.in("first", T.bool);
    const d = [$.deferred(), $.deferred()];
    let i = 0;
    const w = observeOpenAI(new Client(() => d[i++].promise));
    const r1 = w.chat.completions.create({ model: "m1", messages: [] }), r2 = w.chat.completions.create({ model: "m2", messages: [] });
    const res = [{ choices: [{ message: a }] }, { choices: [{ message: b }] }];
    const order = first ? [0, 1] : [1, 0];
    d[order[0]].resolve(res[order[0]]); await $.drain();
    $.assert("only the finished call ended", p.spans.length === 2 && p.spans[order[0]].endCount === 1 && p.spans[order[1]].endCount === 0);
    d[order[1]].resolve(res[order[1]]); await $.drain();
    $.assert("each call has its own result and generation", (await r1) === res[0] && (await r2) === res[1] && O(p.spans[0], "output") === a && O(p.spans[1], "output") === b && O(p.spans[0], "model.name") === "m1" && O(p.spans[1], "model.name") === "m2" && p.spans.every((s) => s.endCount === 1));
  },
};
