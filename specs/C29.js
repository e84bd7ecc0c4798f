/*META {"trusted":["fetch (harness stub answering as the harness says)"],"assumptions":["response bodies are read successfully (text() resolves)","base URLs in the proved unit end in up to three slashes"]} */
import { LangfuseBrowserClient, LangfuseBrowserError } from "@repo/packages/browser/src/index.ts";
function server() {
  const h = { calls: [] };
  h.answer = async (ev) => ({ ok: true, status: 207, text: async () => JSON.stringify({ successes: [{ id: ev.id, status: 201 }], errors: [] }) });
  h.fetch = (url, init) => { const body = JSON.parse(init.body); h.calls.push({ url, init, body }); return h.answer(body.batch[0]); };
  return h;
}
const reply = (ok, status, text) => async () => ({ ok, status, text: async () => text });
async function outcome(p) { try { return { ok: true, v: await p }; } catch (e) { return { ok: false, e }; } }
export const units = {
  request: async ($, T) => {
    const h = server();
    const pk = $.in("pk", T.strOf({ nonEmpty: true })), id = $.in("id", T.strOf({ nonEmpty: true })), name = $.in("name", T.str), value = $.in("value", T.or(T.num, T.str)), tr = $.in("tr", T.str), cm = $.in("cm", T.str);
    const c = new LangfuseBrowserClient({ publicKey: pk, baseUrl: "https://h.example", fetch: h.fetch });
    const body = { id, name, value, traceId: tr, comment: cm };
    const r = await c.score(body);
    $.same("the score's id is the result", r, { id });
    $.same("the given body is left alone", body, { id, name, value, traceId: tr, comment: cm });
    $.assert("one request to the ingestion endpoint", h.calls.length === 1 && h.calls[0].url === "https://h.example/api/public/ingestion" && h.calls[0].init.method === "POST");
    const b = h.calls[0].body;
    $.assert("one score event", b.batch.length === 1 && b.batch[0].type === "score-create" && typeof b.batch[0].id === "string" && b.batch[0].id !== "" && typeof b.batch[0].timestamp === "string");
    $.same("with the score as given", b.batch[0].body, { id, name, value, traceId: tr, comment: cm });
    $.assert("described", b.metadata.batch_size === 1 && b.metadata.public_key === pk && b.metadata.sdk_integration === "browser" && b.metadata.sdk_name === h.calls[0].init.headers["X-Langfuse-Sdk-Name"] && b.metadata.sdk_version === h.calls[0].init.headers["X-Langfuse-Sdk-Version"] && typeof b.metadata.sdk_name === "string");
    const hd = h.calls[0].init.headers;
    $.assert("authorised by the public key alone", hd.Authorization === "Bearer " + pk && hd["X-Langfuse-Public-Key"] === pk && hd["Content-Type"] === "application/json" && hd["X-Langfuse-Sdk-Integration"] === "browser" && typeof hd["X-Langfuse-Sdk-Version"] === "string" && hd["X-Langfuse-Sdk-Version"] === b.metadata.sdk_version && typeof hd["X-Langfuse-Sdk-Name"] === "string");
  },
  ids: async ($, T) => {
    const h = server();
    const n = $.in("n", T.num);
    const c = new LangfuseBrowserClient({ publicKey: "pk", fetch: h.fetch, environment: "e" });
    const body = { name: "x", value: n, traceId: "t" };
    const a = await c.score(body), b = await c.score(body);
    $.same("the given body is left alone", body, { name: "x", value: n, traceId: "t" });
    $.assert("one request each", h.calls.length === 2 && h.calls.every((x) => x.body.batch.length === 1 && x.body.batch[0].body.value === n));
    $.assert("a score without id gets its own, which is reported", typeof a.id === "string" && a.id !== "" && a.id === h.calls[0].body.batch[0].body.id && b.id === h.calls[1].body.batch[0].body.id);
    $.assert("by default to Langfuse Cloud", h.calls[0].url === "https://cloud.langfuse.com/api/public/ingestion");
  },
  distinct: { bounded: "ids are random: only their shape is provable", run: async ($, T) => {
    const h = server();
    const n = $.in("n", T.num);
    const c = new LangfuseBrowserClient({ publicKey: "pk", fetch: h.fetch });
    const ids = [];
    const body = { name: "x", value: n, traceId: "t" };
    for (let i = 0; i < 50; i++) { ids.push((await c.score(body)).id); ids.push(h.calls[i].body.batch[0].id); }
    $.assert("scores and events have ids of their own", new Set(ids).size === 100);
  } },
  environment: async ($, T) => {
    const h = server();
    const e1 = $.in("e1", T.strOf({ nonEmpty: true })), e2 = $.in("e2", T.strOf({ nonEmpty: true }));
    for (const own of [undefined, e2]) for (const conf of [undefined, e1]) {
      h.calls.length = 0;
      await new LangfuseBrowserClient({ publicKey: "pk", fetch: h.fetch, environment: conf }).score({ name: "x", value: 1, traceId: "t", environment: own });
      $.assert("environment of the score, else of the client", h.calls[0].body.batch[0].body.environment === (own !== undefined ? own : conf));
    }
  },
  headers: async ($, T) => {
    const h = server();
    const v = $.in("v", T.str), pk = $.in("pk", T.strOf({ nonEmpty: true }));
    for (const evil of ["authorization", "Authorization", "AUTHORIZATION", "content-type", "Content-type", "x-langfuse-public-key", "X-Langfuse-Sdk-Name", "x-langfuse-sdk-version", "X-LANGFUSE-SDK-VARIANT", "x-langfuse-sdk-integration"]) {
      h.calls.length = 0;
      const given = { [evil]: v, "X-Custom": v, other: "o" };
      await new LangfuseBrowserClient({ publicKey: pk, fetch: h.fetch, additionalHeaders: given }).score({ name: "x", value: 1, traceId: "t" });
      const hd = h.calls[0].init.headers;
      const names = Object.keys(hd).map((k) => k.toLowerCase());
      $.assert("additional headers are sent", hd["X-Custom"] === v && hd.other === "o");
      $.assert("but never replace or double the SDK's own", names.every((k, i) => names.indexOf(k) === i) && hd.Authorization === "Bearer " + pk && hd["Content-Type"] === "application/json" && hd["X-Langfuse-Public-Key"] === pk);
      $.same("the options are left alone", given, { [evil]: v, "X-Custom": v, other: "o" });
    }
  },
  baseUrl: { unroll: 6, run: async ($, T) => {
    const h = server();
    const host = $.in("host", T.strOf({ nonEmpty: true }));
    $.assume(!host.endsWith("/"));
    for (const tail of ["", "/", "//", "///"]) {
      h.calls.length = 0;
      await new LangfuseBrowserClient({ publicKey: "pk", fetch: h.fetch, baseUrl: host + tail }).score({ name: "x", value: 1, traceId: "t" });
      $.assert("trailing slashes do not matter", h.calls[0].url === host + "/api/public/ingestion");
    }
  } },
  refused: async ($, T) => {
    const h = server();
    const msg = $.in("msg", T.str), st = $.in("st", T.range(400, 599));
    const c = new LangfuseBrowserClient({ publicKey: "pk", fetch: h.fetch });
    const go = async (a) => { h.answer = a; const o = await outcome(c.score({ name: "x", value: 1, traceId: "t" })); return o; };
    let o = await go(reply(false, st, JSON.stringify({ message: msg })));
    $.assert("an error status rejects with it", !o.ok && o.e instanceof LangfuseBrowserError && o.e.status === st && o.e.name === "LangfuseBrowserError" && o.e instanceof Error && typeof o.e.message === "string" && o.e.message !== "");
    $.same("and the server's answer", o.e.response, { message: msg });
    o = await go(reply(false, st, "<html>"));
    $.assert("whatever its format", !o.ok && o.e instanceof LangfuseBrowserError && o.e.status === st && o.e.response === "<html>");
    o = await go(reply(false, st, ""));
    $.assert("or without any", !o.ok && o.e instanceof LangfuseBrowserError && o.e.status === st && o.e.response === undefined);
    const net = new Error(msg);
    for (const f of [() => Promise.reject(net), () => { throw net; }]) { o = await go(f); $.assert("a network failure rejects with its cause", !o.ok && o.e instanceof LangfuseBrowserError && o.e.originalError === net); }
    o = await go(async (ev) => ({ ok: true, status: 207, text: async () => JSON.stringify({ successes: [], errors: [{ id: ev.id, status: 400, message: msg }] }) }));
    $.assert("a refused score rejects with the server's errors", !o.ok && o.e instanceof LangfuseBrowserError && o.e.errors.length === 1 && o.e.errors[0].message === msg && o.e.errors[0].status === 400);
    o = await go(async (ev) => ({ ok: true, status: 207, text: async () => JSON.stringify({ successes: [{ id: ev.id, status: 201 }], errors: [{ id: "other", status: 400 }] }) }));
    $.assert("also when successes are reported besides", !o.ok && o.e instanceof LangfuseBrowserError);
    for (const text of ["", "not json", "null", "[]", "{}", '{"successes":[]}', '{"errors":[]}', '{"successes":{},"errors":[]}', '{"successes":[],"errors":[]}', '{"successes":[{"id":"another","status":201}],"errors":[]}', "5", '"x"']) {
      o = await go(reply(true, 200, text));
      $.assert("an answer that does not confirm the score rejects", !o.ok && o.e instanceof LangfuseBrowserError);
      if (text === "not json") $.assert("and carries it", o.e.response === text && o.e.status === 200);
      if (text === "[]" || text === "5" || text.startsWith('{"successes":[') ) $.same("and carries the answer", o.e.response, JSON.parse(text));
    }
    for (const other of [(ev) => ev.id + "x", (ev) => "x" + ev.id, () => ""]) {
      o = await go(async (ev) => ({ ok: true, status: 207, text: async () => JSON.stringify({ successes: [{ id: other(ev), status: 201 }], errors: [] }) }));
      $.assert("only the very event confirms the score", !o.ok && o.e instanceof LangfuseBrowserError);
    }
    $.assert("nothing is sent twice", h.calls.length === 7 + 12 + 3);
    h.answer = async (ev) => ({ ok: true, status: 207, text: async () => JSON.stringify({ successes: [{ id: ev.body.id, status: 201 }], errors: [] }) });
    o = await outcome(c.score({ id: "my-score", name: "x", value: 1, traceId: "t" }));
    $.assert("not the score's own id", !o.ok && o.e instanceof LangfuseBrowserError);
  },
  config: ($, T) => {
    for (const pk of [undefined, null, ""]) { let e; try { new LangfuseBrowserClient({ publicKey: pk, fetch: () => {} }); } catch (x) { e = x; } $.assert("a client without key is refused", e instanceof LangfuseBrowserError); }
  },
  globalFetch: async ($, T) => {
    const h = server(), id = $.in("id", T.strOf({ nonEmpty: true })), pk = $.in("pk", T.strOf({ nonEmpty: true })), before = globalThis.fetch;
    const seen = [];
    globalThis.fetch = function (url, init) { seen.push(this); return h.fetch(url, init); };
    try {
      const r = await outcome(new LangfuseBrowserClient({ publicKey: pk }).score({ id, name: "x", value: 1, traceId: "t" }));
      $.same("without a given fetch the global one is used", [r.ok, r.v?.id, h.calls.length], [true, id, 1]);
      $.assert("as browsers demand: not as a method of another object", seen.length === 1 && (seen[0] === undefined || seen[0] === globalThis));
    } finally { globalThis.fetch = before; }
  },
  concurrent: async ($, T) => {
    const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.strOf({ nonEmpty: true }));
    for (const first of [true, false]) for (const okA of [true, false]) {
      const h = server();
      const d = [$.deferred(), $.deferred()];
      let k = 0;
      h.answer = (ev) => { const i = k++; return d[i].promise.then((ok) => ({ ok: true, status: 207, text: async () => JSON.stringify(ok ? { successes: [{ id: ev.id, status: 201 }], errors: [] } : { successes: [], errors: [{ id: ev.id, status: 400 }] }) })); };
      const c = new LangfuseBrowserClient({ publicKey: "pk", fetch: h.fetch });
      const pa = outcome(c.score({ id: a, name: "x", value: 1, traceId: "t" })), pb = outcome(c.score({ id: b, name: "y", value: 2, traceId: "t" }));
      if (first) { d[0].resolve(okA); await $.drain(); d[1].resolve(true); } else { d[1].resolve(true); await $.drain(); d[0].resolve(okA); }
      const ra = await pa, rb = await pb;
      $.assert("concurrent scores have their own outcome", rb.ok && rb.v.id === b && ra.ok === okA && (okA ? ra.v.id === a : ra.e instanceof LangfuseBrowserError));
    }
  },
};
