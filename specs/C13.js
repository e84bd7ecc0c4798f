/*META {"trusted":["API client methods prompts.get / prompts.create (harness stubs)"]} */
import { PromptManager } from "@repo/packages/client/src/prompt/promptManager.ts";
import "./lib/otel.js";
function mk() {
  const h = { n: 0, fail: true, err: new Error("down"), bodies: [] };
  h.api = { prompts: { get: async (name) => { h.n++; if (h.fail) throw h.err; return { type: "text", name, version: 9, config: {}, labels: [], tags: [], prompt: "live" + h.n }; }, create: async (b) => { h.bodies.push(b); return { ...b, type: b.type, version: 3, labels: b.labels ?? [], tags: b.tags ?? [], config: b.config ?? {} }; } } };
  h.m = new PromptManager({ apiClient: h.api });
  return h;
}
export const units = {
  textFallback: async ($, T) => {
    const h = mk(), name = $.in("name", T.str), fb = $.in("fallback", T.str), version = $.in("version", T.opt(T.range(0, 50))), label = $.in("label", T.opt(T.str)), ttl = $.in("ttl", T.opt(T.range(0, 100))), typed = $.in("typed", T.opt(T.lit("text")));
    let got, err;
    try { got = await h.m.get(name, { fallback: fb, version, label, cacheTtlSeconds: ttl, type: typed }); } catch (e) { err = e; }
    if (fb) {
      $.assert("the fallback is returned when the fetch fails", err === undefined && got.prompt === fb && got.type === "text");
      $.assert("and marked as fallback", got.isFallback === true && got.name === name && got.version === (version ?? 0));
      $.same("labels", got.labels, label ? [label] : []);
      $.same("no tags", got.tags, []); $.same("no configuration", got.config, {});
    } else $.assert("without a fallback the fetch error is thrown", got === undefined && err === h.err);
    h.fail = false;
    const later = await h.m.get(name, { fallback: fb, version, label, cacheTtlSeconds: ttl });
    $.assert("a fallback is never cached", h.n === 2 && later.prompt === "live2" && later.isFallback === false);
  },
  chatFallback: async ($, T) => {
    const h = mk(), r1 = $.in("role1", T.str), c1 = $.in("content1", T.str), r2 = $.in("role2", T.str), c2 = $.in("content2", T.str), n = $.in("n", T.lit(0, 1, 2));
    const msgs = [{ role: r1, content: c1 }, { role: r2, content: c2 }].slice(0, n);
    const got = await h.m.get("p", { type: "chat", fallback: msgs });
    $.assert("a chat fallback becomes a chat prompt", got.type === "chat" && got.isFallback === true && got.prompt.length === n);
    if (n > 0) $.assert("first message", got.prompt[0].role === r1 && got.prompt[0].content === c1 && got.prompt[0].type === "chatmessage");
    if (n > 1) $.assert("second message", got.prompt[1].role === r2 && got.prompt[1].content === c2);
    $.assert("the caller's messages are not modified", msgs.every((m) => !("type" in m)));
  },
  successIgnoresFallback: async ($, T) => {
    const h = mk(), fb = $.in("fallback", T.str);
    h.fail = false;
    const got = await h.m.get("p", { fallback: fb });
    $.assert("a successful fetch wins over the fallback", got.prompt === "live1" && got.isFallback === false);
  },
  cacheBeatsFallback: async ($, T) => {
    const h = mk(), fb = $.in("fallback", T.strOf({ nonEmpty: true })), dt = $.in("dt", T.range(0, 500000));
    h.fail = false;
    const a = await h.m.get("p"); h.fail = true;
    await $.advance(dt);
    const b = await h.m.get("p", { fallback: fb });
    await $.drain();
    $.assert("a cached prompt, even stale, wins over the fallback", b === a && b.isFallback === false);
  },
  createText: async ($, T) => {
    const h = mk(), name = $.in("name", T.str), prompt = $.in("prompt", T.str), type = $.in("type", T.opt(T.lit("text"))), labels = $.in("labels", T.opt(T.arr(T.str))), config = $.in("config", T.any);
    const got = await h.m.create({ name, prompt, type, labels, config });
    const b = h.bodies[0];
    $.assert("text prompt created as given", h.bodies.length === 1 && b.name === name && b.prompt === prompt && b.type === "text" && (b.config === config || Object.is(b.config, config)));
    $.same("labels as given", b.labels, labels);
    $.assert("client for the created prompt", got.type === "text" && got.prompt === prompt && got.version === 3 && got.isFallback === false);
  },
  createChat: async ($, T) => {
    const h = mk(), role = $.in("role", T.str), content = $.in("content", T.str), ph = $.in("placeholder", T.str), extra = $.in("extra", T.str), first = $.in("phFirst", T.bool);
    const m = { role, content, extra }, p = { type: "placeholder", name: ph };
    const got = await h.m.create({ name: "x", type: "chat", prompt: first ? [p, m] : [m, p] });
    const b = h.bodies[0].prompt, i = first ? 1 : 0;
    $.same("message sent typed", b[i], { role, content, extra, type: "chatmessage" });
    $.same("placeholder sent by name", b[1 - i], { type: "placeholder", name: ph });
    $.assert("order and count kept", b.length === 2 && got.type === "chat" && got.prompt.length === 2 && got.prompt[i].content === content);
  },
  failedCreate: async ($, T) => {
    const h = mk(), err = new Error("c"); let got;
    h.api.prompts.create = async () => { throw err; };
    try { await h.m.create({ name: $.in("name", T.str), prompt: "x" }); } catch (e) { got = e; }
    $.assert("create errors reach the caller", got === err);
  },
};
