/*META {"trusted":["global fetch and its Response (harness stub: status, headers.get, body, text)","encodeURIComponent and the base64 encoding of unknown text (uninterpreted injective functions with their alphabets)","URL (pathname joining of an absolute http base with percent-encoded segments)"],"assumptions":["ids in paths are not empty and not the dot segments . and ..","texts are well-formed UTF-16 (encodeURIComponent throws otherwise)"]} */
import { LangfuseClient } from "@repo/packages/client/src/LangfuseClient.ts";
import { LangfuseAPIClient } from "@repo/packages/core/src/api/Client.ts";
import { LANGFUSE_SDK_VERSION } from "@repo/packages/core/src/constants.ts";
import { ENDPOINTS } from "./lib/endpoints.js";
const ENVKEYS = ["LANGFUSE_PUBLIC_KEY", "LANGFUSE_SECRET_KEY", "LANGFUSE_BASE_URL", "LANGFUSE_BASEURL", "LANGFUSE_TIMEOUT"];
const clearEnv = () => { for (const k of ENVKEYS) delete process.env[k]; };
const auth = (a, b) => "Basic " + Buffer.from(a + ":" + b, "utf8").toString("base64");
function net(reply = () => '{"ok":1}') {
  const n = { reqs: [] };
  globalThis.fetch = async (url, init) => { n.reqs.push({ url, ...init }); const t = reply(url, n.reqs.length); return { status: 200, ok: true, statusText: "OK", type: "basic", redirected: false, url, headers: { get: () => null }, body: {}, text: async () => t, json: async () => JSON.parse(t) }; };
  return n;
}
const H = (o) => { const r = {}; for (const [k, v] of Object.entries(o)) r[k.toLowerCase()] = v; return r; };
const method = (api, call) => { const seg = call.split("."), m = seg.pop(); let o = api; for (const s of seg) o = o[s]; return o[m].bind(o); };
const client = () => new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "https://h.example" });
const idOk = ($, id) => { const e = encodeURIComponent(id); $.assume(e !== "" && e !== "." && e !== ".."); return e; };
const table = (from, to) => async ($, T) => {
  clearEnv();
  const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.strOf({ nonEmpty: true })), x = $.in("x", T.str), n = $.in("n", T.num), reply = $.in("reply", T.str);
  const ea = idOk($, a), eb = idOk($, b);
  const api = client().api;
  for (const [call, verb, path, body, q, hasReq, noData] of ENDPOINTS.slice(from, to)) {
    const names = path.split("/").filter((s) => s.startsWith("{"));
    const ids = names.map((s, i) => (s === "{version}" ? 3 : i === 0 ? a : b));
    let i = 0;
    const url = "https://h.example" + path.split("/").map((s) => (s === "{version}" ? (i++, "3") : s.startsWith("{") ? (i++ === 0 ? ea : eb) : s)).join("/");
    const f = method(api, call);
    const one = async (req, opts) => {
      const net1 = net(() => JSON.stringify({ v: reply }));
      const r = await (hasReq ? f(...ids, req, opts) : f(...ids, opts));
      $.same(call + " returns the answer's data", r, noData ? undefined : { v: reply });
      $.assert(call + " sends one request with its verb", net1.reqs.length === 1 && net1.reqs[0].method === verb);
      const h = H(net1.reqs[0].headers);
      $.assert(call + " is authenticated and identifies the SDK", h.authorization === auth("pk", "sk") && h["x-langfuse-public-key"] === "pk" && h["x-langfuse-sdk-name"] === "javascript" && h["x-langfuse-sdk-version"] === LANGFUSE_SDK_VERSION);
      return net1.reqs[0];
    };
    if (body) {
      const r = await one({ name: x, n, list: [x, 1], deep: { x: null } });
      $.assert(call + " sends the request as its JSON body", r.url === url && r.body === JSON.stringify({ name: x, n, list: [x, 1], deep: { x: null } }) && H(r.headers)["content-type"] === "application/json");
    } else {
      const r = await one({});
      $.assert(call + " addresses its path, without body", r.url === url && r.body === undefined);
    }
    const params = q === "" ? [] : q.split(",").map((s) => { const [k, kind] = s.split(":"); return [k, kind[0], kind.length > 1]; });
    for (const [k, kind, required] of params) {
      const cases = kind === "s" ? [[x, encodeURIComponent(x)]] : kind === "n" ? [[7, "7"], [0, "0"], [false, "false"], [true, "true"]] : [[x, encodeURIComponent(x)]];
      for (const [v, e] of cases) $.assert(call + " passes " + k, (await one({ [k]: v })).url === url + "?" + k + "=" + e);
      if (kind === "a") $.assert(call + " repeats " + k, (await one({ [k]: [x, "b c"] })).url === url + "?" + k + "=" + encodeURIComponent(x) + "&" + k + "=b%20c");
      for (const v of required ? [undefined] : [undefined, null]) $.assert(call + " leaves out an absent " + k, (await one({ [k]: v })).url === url);
    }
    if (params.length > 0) {
      const req = {}, want = [];
      params.forEach(([k, kind], j) => { req[k] = kind === "s" ? "v " + j : kind === "n" ? j : ["p&" + j, "q"]; if (kind === "a") want.push(`${k}=p%26${j}`, `${k}=q`); else want.push(`${k}=${kind === "s" ? "v%20" : ""}${j}`); });
      const n2 = net();
      await f(...ids.map(() => "id"), req);
      const u = n2.reqs[0].url, at = u.indexOf("?");
      $.same(call + " passes all parameters together", [u.slice(0, at), u.slice(at + 1).split("&").sort()], ["https://h.example" + path.split("/").map((s) => (s.startsWith("{") ? "id" : s)).join("/"), want.sort()]);
    }
    const u2 = (await one(body ? { a: 1 } : {}, { queryParams: { extra: x, none: undefined }, headers: { "X-Extra": x } }));
    $.assert(call + " takes extra query parameters and headers", u2.url === url + "?extra=" + encodeURIComponent(x) && H(u2.headers)["x-extra"] === x);
    $.cover(call + " checked");
  }
};
export const units = {
  config: async ($, T) => {
    clearEnv();
    const ps = $.in("ps", T.strOf({ nonEmpty: true })), es = $.in("es", T.strOf({ nonEmpty: true })), pp = $.in("pp", T.strOf({ nonEmpty: true })), ep = $.in("ep", T.strOf({ nonEmpty: true }));
    for (const [param, e1, e2, want] of [["https://p.example", undefined, undefined, "https://p.example"], ["https://p.example", "https://e1.example", "https://e2.example", "https://p.example"], [undefined, "https://e1.example", "https://e2.example", "https://e1.example"], [undefined, undefined, "https://e2.example", "https://e2.example"], [undefined, undefined, undefined, "https://cloud.langfuse.com"], ["http://localhost:3000", "https://e1.example", undefined, "http://localhost:3000"], ["https://p.example/", undefined, undefined, "https://p.example"], ["https://p.example/sub/path", undefined, undefined, "https://p.example/sub/path"], ["https://p.example/sub/", undefined, undefined, "https://p.example/sub"]]) {
      for (const how of ["params", "env", "both"]) {
        clearEnv();
        if (e1 !== undefined) process.env.LANGFUSE_BASE_URL = e1;
        if (e2 !== undefined) process.env.LANGFUSE_BASEURL = e2;
        if (how !== "params") { process.env.LANGFUSE_PUBLIC_KEY = ep; process.env.LANGFUSE_SECRET_KEY = es; }
        const n = net();
        const c = new LangfuseClient(how === "env" ? { baseUrl: param } : { baseUrl: param, publicKey: pp, secretKey: ps });
        await c.api.health.health();
        clearEnv();
        const [pk, sk] = how === "env" ? [ep, es] : [pp, ps], h = H(n.reqs[0].headers);
        $.assert("the request goes to the configured server", n.reqs.length === 1 && n.reqs[0].url === want + "/api/public/health");
        $.assert("with the configured keys", h.authorization === auth(pk, sk) && h["x-langfuse-public-key"] === pk);
      }
    }
    for (const [pk, sk] of [["pk", undefined], [undefined, "sk"], [undefined, undefined]]) {
      clearEnv();
      const n = net();
      await new LangfuseClient({ publicKey: pk, secretKey: sk }).api.health.health();
      $.assert("without both keys no credentials are sent", !("authorization" in H(n.reqs[0].headers)) && n.reqs.length === 1);
    }
  },
  noParams: async ($, T) => {
    clearEnv();
    const ep = $.in("ep", T.strOf({ nonEmpty: true })), es = $.in("es", T.strOf({ nonEmpty: true }));
    process.env.LANGFUSE_PUBLIC_KEY = ep; process.env.LANGFUSE_SECRET_KEY = es;
    const n = net();
    await new LangfuseClient().api.health.health();
    clearEnv();
    $.assert("everything from the environment", n.reqs[0].url === "https://cloud.langfuse.com/api/public/health" && H(n.reqs[0].headers).authorization === auth(ep, es));
  },
  headers: async ($, T) => {
    clearEnv();
    const x = $.in("x", T.str), y = $.in("y", T.str), k = $.in("k", T.strOf({ nonEmpty: true }));
    const n = net();
    const c = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "https://h.example", additionalHeaders: { "X-A": x, "X-B": "b" } });
    const opts = { headers: { "X-A": y, "X-C": "c" } };
    await c.api.health.health();
    await c.api.media.get("m", opts);
    await c.api.media.get("m", { headers: { "X-B": undefined, "X-A": null } });
    await c.api.media.get("m", { xLangfuseSdkName: k, xLangfuseSdkVersion: "9", xLangfusePublicKey: "other" });
    await c.api.health.health();
    const [h0, h1, h2, h3, h4] = n.reqs.map((r) => H(r.headers));
    $.assert("configured headers are sent with every request", h0["x-a"] === x && h0["x-b"] === "b" && h4["x-a"] === x && h4["x-b"] === "b" && h3["x-a"] === x);
    $.assert("headers of one request override and add", h1["x-a"] === y && h1["x-b"] === "b" && h1["x-c"] === "c");
    $.assert("and do not stick", !("x-c" in h4) && !("x-c" in h3));
    $.assert("an empty override removes", !("x-b" in h2) && !("x-a" in h2));
    $.assert("identification can be overridden per request", h3["x-langfuse-sdk-name"] === k && h3["x-langfuse-sdk-version"] === "9" && h3["x-langfuse-public-key"] === "other" && h4["x-langfuse-sdk-name"] === "javascript");
    $.same("the caller's options are left alone", opts, { headers: { "X-A": y, "X-C": "c" } });
  },
  suppliers: async ($, T) => {
    clearEnv();
    const ks = [$.in("k0", T.strOf({ nonEmpty: true })), $.in("k1", T.strOf({ nonEmpty: true }))];
    const n = net();
    let i = 0;
    const api = new LangfuseAPIClient({ environment: "https://env.example", username: () => ks[i], password: async () => "s" + i, headers: { "X-T": () => "t" + i, "X-N": () => undefined } });
    await api.health.health(); i = 1; await api.health.health();
    $.assert("credentials and headers are evaluated for every request", n.reqs.every((r, j) => { const h = H(r.headers); return h.authorization === auth(ks[j], "s" + j) && h["x-t"] === "t" + j && !("x-n" in h); }) && n.reqs.length === 2);
    $.assert("the environment is the server without a base URL", n.reqs[0].url === "https://env.example/api/public/health");
  },
  query: async ($, T) => {
    clearEnv();
    const x = $.in("x", T.str), y = $.in("y", T.str), k = $.in("k", T.strOf({ nonEmpty: true })), v = $.in("v", T.or(T.num, T.bool));
    const go = async (qp) => { const n = net(); await client().api.health.health({ queryParams: qp }); return n.reqs[0].url.slice("https://h.example/api/public/health".length); };
    const e = encodeURIComponent;
    $.assert("keys and values are encoded", (await go({ [k]: x })) === `?${e(k)}=${e(x)}`);
    $.assert("numbers and flags", (await go({ a: v })) === `?a=${e(String(v))}`);
    $.assert("in order", (await go({ a: x, b: y })) === `?a=${e(x)}&b=${e(y)}`);
    $.assert("undefined is left out", (await go({ a: undefined, b: x, c: undefined })) === `?b=${e(x)}`);
    $.assert("nothing", (await go({})) === "" && (await go(undefined)) === "" && (await go({ a: undefined })) === "" && (await go({ a: [], b: {} })) === "");
    $.assert("lists repeat the key", (await go({ t: [x, y, undefined, 3] })) === `?t=${e(x)}&t=${e(y)}&t=3`);
    $.assert("objects nest", (await go({ f: { a: x, b: [y], c: { d: 1 } } })) === `?${e("f[a]")}=${e(x)}&${e("f[b]")}=${e(y)}&${e("f[c][d]")}=1`);
    $.assert("lists of objects", (await go({ f: [{ a: x }, { a: y }] })) === `?${e("f[a]")}=${e(x)}&${e("f[a]")}=${e(y)}`);
  },
  queryList: async ($, T) => {
    clearEnv();
    const tags = $.in("tags", T.arr(T.str));
    const n = net();
    await client().api.trace.list({ tags });
    const want = tags.map((t) => "tags=" + encodeURIComponent(t)).join("&");
    $.assume(tags.length === 0 || want !== "");
    $.assert("all tags are in the query, in order", n.reqs[0].url === "https://h.example/api/public/traces" + (tags.length > 0 ? "?" + want : ""));
  },
  traceUrl: async ($, T) => {
    clearEnv();
    const p = $.in("p", T.strOf({ nonEmpty: true })), t1 = $.in("t1", T.str), t2 = $.in("t2", T.str);
    const n = net((u, i) => JSON.stringify({ data: [{ id: i === 1 ? p : "later" }, { id: "second" }] }));
    const c = client();
    const u1 = await c.getTraceUrl(t1), u2 = await c.getTraceUrl(t2);
    $.assert("trace urls name project and trace", u1 === `https://h.example/project/${p}/traces/${t1}` && u2 === `https://h.example/project/${p}/traces/${t2}`);
    $.assert("the project is looked up once", n.reqs.length === 1 && n.reqs[0].url === "https://h.example/api/public/projects");
  },
  compat: async ($, T) => {
    clearEnv();
    const a = $.in("a", T.strOf({ nonEmpty: true })), b = $.in("b", T.strOf({ nonEmpty: true }));
    const ea = idOk($, a), eb = idOk($, b);
    const { fetchTrace, fetchTraces, fetchObservation, fetchObservations, fetchSessions, getDatasetRun, getDatasetRuns, createDataset, getDatasetItem, createDatasetItem, fetchMedia } = client();
    const U = "https://h.example/api/public";
    for (const [f, verb, want] of [[() => fetchTrace(a), "GET", `/traces/${ea}`], [() => fetchTraces({ userId: a }), "GET", `/traces?userId=${ea}`], [() => fetchObservation(a), "GET", `/observations/${ea}`], [() => fetchObservations({ traceId: a }), "GET", `/v2/observations?traceId=${ea}`], [() => fetchSessions(a), "GET", `/sessions/${ea}`], [() => getDatasetRun(a, b), "GET", `/datasets/${ea}/runs/${eb}`], [() => getDatasetRuns(a), "GET", `/datasets/${ea}/runs`], [() => createDataset({ name: a }), "POST", "/v2/datasets"], [() => getDatasetItem(a), "GET", `/dataset-items/${ea}`], [() => createDatasetItem({ datasetName: a }), "POST", "/dataset-items"], [() => fetchMedia(a), "GET", `/media/${ea}`]]) {
      const n = net();
      await f();
      $.assert("shortcut " + want.split("/")[1], n.reqs.length === 1 && n.reqs[0].method === verb && n.reqs[0].url === U + want);
    }
  },
  compatManagers: async ($, T) => {
    clearEnv();
    const name = $.in("name", T.strOf({ nonEmpty: true })), e = idOk($, name), text = $.in("text", T.str), U = "https://h.example/api/public";
    const { createPrompt, updatePrompt, getDataset, resolveMediaReferences } = client();
    let n = net(() => JSON.stringify({ name, version: 1, type: "text", prompt: text, config: {}, labels: [], tags: [] }));
    const p = await createPrompt({ name, prompt: text });
    $.assert("createPrompt is prompt.create", p.prompt === text && n.reqs.length === 1 && n.reqs[0].method === "POST" && n.reqs[0].url === U + "/v2/prompts" && JSON.parse(n.reqs[0].body).name === name);
    await updatePrompt({ name, version: 1, newLabels: ["x"] });
    $.assert("updatePrompt is prompt.update", n.reqs.length === 2 && n.reqs[1].method === "PATCH" && n.reqs[1].url === U + `/v2/prompts/${e}/versions/1`);
    n = net((u) => (u.startsWith(U + "/dataset-items") ? JSON.stringify({ data: [{ id: "i", input: text }], meta: { page: 1, limit: 50, totalItems: 1, totalPages: 1 } }) : JSON.stringify({ id: "d", name })));
    const d = await getDataset(name);
    $.assert("getDataset is dataset.get", d.name === name && d.items.length === 1 && d.items[0].input === text && n.reqs.length === 2 && n.reqs[0].url === U + "/v2/datasets/" + e);
    $.same("resolveMediaReferences is media.resolveReferences", await resolveMediaReferences({ obj: { a: [1] }, resolveWith: "base64DataUri" }), { a: [1] });
  },
  getPrompt: async ($, T) => {
    clearEnv();
    const name = $.in("name", T.strOf({ nonEmpty: true })), e = idOk($, name);
    const n = net(() => JSON.stringify({ name, version: 1, type: "text", prompt: "hi", config: {}, labels: [], tags: [] }));
    const p = await client().getPrompt(name);
    $.assert("getPrompt is prompt.get", p.prompt === "hi" && n.reqs.length === 1 && n.reqs[0].url.startsWith("https://h.example/api/public/v2/prompts/" + e));
  },
  body: async ($, T) => {
    clearEnv();
    const x = $.in("x", T.str), n1 = $.in("n", T.num);
    const n = net(() => "");
    const d = await client().api.datasetItems.create({ datasetName: x, input: { n: n1, u: undefined, l: [null, true] } });
    $.assert("JSON body without undefined", JSON.stringify(JSON.parse(n.reqs[0].body)) === JSON.stringify({ datasetName: x, input: { n: n1, l: [null, true] } }));
    $.assert("an empty answer is undefined", d === undefined);
  },
  raw: async ($, T) => {
    clearEnv();
    const x = $.in("x", T.str);
    const n = net(() => JSON.stringify({ x }));
    const { data, rawResponse } = await client().api.health.health().withRawResponse();
    $.same("raw response and data", [data, rawResponse.status, n.reqs.length], [{ x }, 200, 1]);
  },
  flush: async ($, T) => {
    clearEnv();
    const x = $.in("x", T.strOf({ nonEmpty: true })), how = $.in("how", T.bool);
    const n = net(() => '{"successes":[],"errors":[]}');
    const c = client();
    c.score.create({ traceId: "t", name: x, value: 1 });
    await (how ? c.flush() : c.shutdown());
    const sent = n.reqs.filter((r) => r.url === "https://h.example/api/public/ingestion");
    $.assert("pending scores are sent by flush and shutdown", sent.length === 1 && JSON.parse(sent[0].body).batch.length === 1 && JSON.parse(sent[0].body).batch[0].body.name === x);
  },
  endpoints0: { maxPaths: 4000, run: table(0, 29) },
  endpoints1: { maxPaths: 4000, run: table(29, 58) },
  endpoints2: { maxPaths: 4000, run: table(58, 87) },
  endpoints3: { maxPaths: 4000, run: table(87, 120) },
};
