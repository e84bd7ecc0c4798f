/*META {"trusted":["API client methods prompts.get / promptVersion.update / prompts.delete (harness stubs)"]} */
import { PromptManager } from "@repo/packages/client/src/prompt/promptManager.ts";
import "./lib/otel.js";
const data = (name, n, type) => ({ type, name, version: n, config: {}, labels: [], tags: [], prompt: type === "chat" ? [{ role: "user", content: "c" + n }] : "text" + n });
function mk() {
  const h = { calls: [], n: 0, fail: false, gate: null, type: "text", deleted: [], updated: [] };
  h.api = { prompts: { get: async (name, req, opt) => { const i = ++h.n; h.calls.push({ name, req, opt }); if (h.gate) await h.gate.promise; if (h.fail) throw new Error("fetch"); return data(name, i, h.type); }, delete: async (name, o) => { h.deleted.push({ name, o }); } }, promptVersion: { update: async (name, version, b) => { h.updated.push({ name, version, b }); return { name, version }; } } };
  h.m = new PromptManager({ apiClient: h.api });
  return h;
}
const label = (T) => T.opt(T.strOf({ re: /^[a-z0-9_.-]+$/, ex: ["production", "latest", "staging", "a-b"], pool: ["production", "latest", "staging", "x"] }));
export const units = {
  withinTtl: async ($, T) => {
    const h = mk(), name = $.in("name", T.str), version = $.in("version", T.opt(T.range(0, 50))), lab = $.in("label", label(T)), ttl = $.in("ttl", T.opt(T.range(1, 600))), dt = $.in("dt", T.range(0, 700000));
    const o = { version, label: lab, cacheTtlSeconds: ttl };
    const a = await h.m.get(name, o);
    $.assert("first get fetches", h.calls.length === 1 && a.prompt === "text1");
    await $.advance(dt);
    const b = await h.m.get(name, o);
    await $.drain();
    $.assert("the cached prompt is returned", b === a);
    const life = (ttl ?? 60) * 1000;
    $.assert("no request before the ttl elapsed, one refresh after", h.calls.length === (dt > life ? 2 : 1));
    const c = await h.m.get(name, o);
    $.assert("the refreshed prompt is served next", c.prompt === (dt > life ? "text2" : "text1") && (dt > life || c === a));
    await $.drain();
    $.assert("the refresh renewed the entry", h.calls.length === (dt > life ? 2 : 1));
    if (dt > life) {
      const dt2 = $.in("dt2", T.range(0, 700000));
      await $.advance(dt2);
      await h.m.get(name, o);
      await $.drain();
      $.assert("for the same time to live", h.calls.length === (dt2 > life ? 3 : 2));
    }
  },
  ttlZero: async ($, T) => {
    const h = mk(), name = $.in("name", T.str), warm = $.in("warm", T.bool);
    if (warm) await h.m.get(name);
    const n0 = h.calls.length;
    const a = await h.m.get(name, { cacheTtlSeconds: 0 });
    const b = await h.m.get(name, { cacheTtlSeconds: 0 });
    $.assert("ttl zero always fetches and returns the fresh prompt", h.calls.length === n0 + 2 && a.prompt === "text" + (n0 + 1) && b.prompt === "text" + (n0 + 2));
    const dt = $.in("dt", T.range(1, 100000));
    await $.advance(dt);
    await h.m.get(name);
    await $.drain();
    $.assert("a prompt fetched with ttl zero is never fresh", h.calls.length === n0 + 3);
  },
  fields: async ($, T) => {
    const name = $.in("name", T.str), v = $.in("v", T.range(0, 1000)), cm = $.in("cm", T.opt(T.nullable(T.str))), c = $.in("c", T.str), a = $.in("a", T.str);
    for (const type of ["text", "chat"]) {
      const h = mk(), prompt = type === "text" ? c : [{ role: "user", content: c }];
      h.api.prompts.get = async () => ({ type, name, version: v, config: { a, n: 0 }, labels: [a, "production"], tags: [c], commitMessage: cm, prompt });
      for (const p of [await h.m.get(name), await h.m.get(name)])
        $.same("a fetched or cached prompt is what the server said", [p.type, p.name, p.version, p.config, p.labels, p.tags, p.commitMessage, p.isFallback], [type, name, v, { a, n: 0 }, [a, "production"], [c], cm, false]);
    }
  },
  singleRefresh: async ($, T) => {
    const h = mk(), name = $.in("name", T.str), fails = $.in("fails", T.bool), extra = $.in("extra", T.range(1, 100000));
    const a = await h.m.get(name, { cacheTtlSeconds: 5 });
    await $.advance(5000 + extra);
    h.gate = $.deferred(); h.fail = fails;
    const b = await h.m.get(name, { cacheTtlSeconds: 5 }), c = await h.m.get(name, { cacheTtlSeconds: 5 });
    const d = await h.m.get(name, { cacheTtlSeconds: 5 });
    await $.drain();
    $.assert("stale prompt served without waiting", b === a && c === a && d === a);
    $.assert("a single refresh in flight", h.calls.length === 2);
    h.gate.resolve(); h.gate = null;
    await $.drain();
    h.fail = false;
    const e = await h.m.get(name, { cacheTtlSeconds: 5 });
    await $.drain();
    if (fails) $.assert("after a failed refresh the stale prompt is served and the next get refreshes again", e === a && h.calls.length === 3);
    else $.assert("after a successful refresh the new prompt is served", e.prompt === "text2" && h.calls.length === 2);
    const f = await h.m.get(name, { cacheTtlSeconds: 5 });
    $.assert("recovered", f.prompt === (fails ? "text3" : "text2"));
  },
  keys: async ($, T) => {
    const h = mk();
    const ver = T.opt(T.range(0, 30));
    const n1 = $.in("n1", T.strOf({ pool: ["a", "a-label", "a-version"] })), n2 = $.in("n2", T.strOf({ pool: ["a", "a-label", "a-version"] })), v1 = $.in("v1", ver), v2 = $.in("v2", ver), l1 = $.in("l1", T.opt(T.lit("production", "latest", "x"))), l2 = $.in("l2", T.opt(T.lit("production", "latest", "x")));
    $.assume(!n1.includes("label:") && !n2.includes("label:") && !n1.includes("version:") && !n2.includes("version:"));
    const sel = (v, l) => (v !== undefined ? "v" + v : l ?? "production");
    const a = await h.m.get(n1, { version: v1, label: l1 }), b = await h.m.get(n2, { version: v2, label: l2 });
    const same = n1 === n2 && sel(v1, l1) === sel(v2, l2);
    $.assert("one entry per name and version or label", same ? h.calls.length === 1 && b === a : h.calls.length === 2 && b !== a && b.name === n2);
  },
  request: async ($, T) => {
    const h = mk(), name = $.in("name", T.str), version = $.in("version", T.opt(T.range(0, 50))), lab = $.in("label", T.opt(T.str)), retries = $.in("retries", T.opt(T.range(0, 5))), timeout = $.in("timeout", T.opt(T.range(1, 90000))), chat = $.in("chat", T.bool);
    h.type = chat ? "chat" : "text";
    const p = await h.m.get(name, { version, label: lab, maxRetries: retries, fetchTimeoutMs: timeout });
    const c = h.calls[0];
    $.assert("requested as asked", c.name === name && c.req.version === version && c.req.label === lab && c.opt.maxRetries === retries);
    $.assert("timeout in seconds", c.opt.timeoutInSeconds === (timeout === undefined ? undefined : timeout / 1000));
    $.assert("typed by the response", p.type === h.type && p.isFallback === false && p.name === name && p.version === 1);
  },
  invalidation: async ($, T) => {
    const h = mk(), name = $.in("name", T.str), how = $.in("how", T.lit("update", "delete")), version = $.in("version", T.range(1, 50)), lab = $.in("label", T.opt(T.str)), dv = $.in("delVersion", T.opt(T.range(1, 50)));
    await h.m.get(name); await h.m.get(name, { version }); await h.m.get(name, { label: "latest" });
    $.assert("three entries", h.calls.length === 3);
    if (how === "update") { const u = await h.m.update({ name, version, newLabels: ["x"] }); $.assert("update sent", h.updated.length === 1 && h.updated[0].name === name && h.updated[0].version === version && h.updated[0].b.newLabels[0] === "x"); $.assert("the updated prompt is returned", u.name === name && u.version === version); }
    else { await h.m.delete(name, { version: dv, label: lab }); $.assert("delete sent", h.deleted.length === 1 && h.deleted[0].name === name && h.deleted[0].o.version === dv && h.deleted[0].o.label === lab); }
    const a = await h.m.get(name), b = await h.m.get(name, { version }), c = await h.m.get(name, { label: "latest" });
    $.assert("nothing cached for the prompt is served any more", h.calls.length === 6 && a.prompt === "text4" && b.prompt === "text5" && c.prompt === "text6");
  },
  failedChange: async ($, T) => {
    const h = mk(), name = $.in("name", T.str), err = new Error("x");
    const a = await h.m.get(name);
    h.api.promptVersion.update = async () => { throw err; }; h.api.prompts.delete = async () => { throw err; };
    let c1, c2;
    try { await h.m.update({ name, version: 1, newLabels: [] }); } catch (e) { c1 = e; }
    try { await h.m.delete(name); } catch (e) { c2 = e; }
    $.assert("errors reach the caller", c1 === err && c2 === err);
    $.assert("still cached", (await h.m.get(name)) === a && h.calls.length === 1);
  },
  failedFetchNotCached: async ($, T) => {
    const h = mk(), name = $.in("name", T.str);
    h.fail = true; let e1;
    try { await h.m.get(name); } catch (e) { e1 = e; }
    $.assert("error reaches the caller", e1 instanceof Error && e1.message === "fetch");
    h.fail = false;
    const a = await h.m.get(name), b = await h.m.get(name);
    $.assert("a failed fetch leaves nothing behind", h.calls.length === 2 && a.prompt === "text2" && b === a);
  },
};
