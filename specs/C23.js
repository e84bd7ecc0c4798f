/*META {"trusted":["global fetch (harness stub: answers, rejects, or rejects with the abort reason of the given signal when that aborts, as the platform's does)","AbortController and AbortSignal (engine model / platform)","timers (virtual clock in the prover and in the stand-in)"],"assumptions":["answers carry well-formed JSON or a content type that is not JSON"]} */
import { LangfuseAPIClient } from "@repo/packages/core/src/api/Client.ts";
import * as LangfuseAPI from "@repo/packages/core/src/api/api/index.ts";
import { LangfuseAPIError } from "@repo/packages/core/src/api/errors/LangfuseAPIError.ts";
import { LangfuseAPITimeoutError } from "@repo/packages/core/src/api/errors/LangfuseAPITimeoutError.ts";
import { ENDPOINTS } from "./lib/endpoints.js";
const method = (api, call) => { const seg = call.split("."), m = seg.pop(); let o = api; for (const s of seg) o = o[s]; return o[m].bind(o); };
const client = () => new LangfuseAPIClient({ baseUrl: "https://h.example", environment: "", username: "pk", password: "sk" });
function net($, reply) {
  const n = { reqs: [] };
  globalThis.fetch = (url, init) => {
    const i = n.reqs.length;
    n.reqs.push({ url, at: $.now(), ...init });
    return new Promise((res, rej) => {
      const { signal } = init;
      if (signal && signal.aborted) return rej(signal.reason);
      if (signal) signal.addEventListener("abort", () => rej(signal.reason));
      const r = reply(i);
      if (r === undefined) return;
      if (r instanceof Error || typeof r === "string") return rej(r);
      res({ status: r.status, statusText: "S", ok: r.status < 300, type: "basic", redirected: false, url, headers: { get: (k) => { for (const [a, v] of Object.entries(r.headers ?? {})) if (a.toLowerCase() === k.toLowerCase()) return v; return null; } }, body: {}, text: async () => { if (r.textError) throw r.textError; return r.text ?? ""; } });
    });
  };
  return n;
}
const adv = async ($, ms) => { await $.advance(ms); await $.drain(); };
const out = async (p) => { try { return { ok: await p }; } catch (e) { return { err: e }; } };
const track = (p) => { const s = {}; out(p).then((r) => { s.done = true; s.r = r; }); return s; };
const table = (from, to) => async ($, T) => {
  const msg = $.in("msg", T.str), api = client();
  for (const [call, , path, , , hasReq] of ENDPOINTS.slice(from, to)) {
    const ids = path.split("/").filter((s) => s.startsWith("{")).map(() => "id"), f = method(api, call), un = call.startsWith("unstable.");
    for (const st of [400, 401, 403, 404, 405, 409, 418, 422, 429, 500, 503, 599]) {
      const n = net($, () => ({ status: st, text: JSON.stringify({ message: msg }), headers: { "content-type": "application/json; charset=utf-8" } }));
      const { err } = await out(hasReq ? f(...ids, { a: 1 }, { maxRetries: 0 }) : f(...ids, { maxRetries: 0 }));
      $.assert(call + " rejects on an error status", n.reqs.length === 1 && err instanceof LangfuseAPIError && err instanceof Error && err.statusCode === st && err.rawResponse.status === st);
      const bodyless = (call === "feedback.submit" && st === 409) || (call === "health.health" && st === 503);
      $.same(call + " reports the answer's body", err.body, bodyless ? undefined : { message: msg });
      const X = un ? { 400: LangfuseAPI.unstable.BadRequestError, 401: LangfuseAPI.unstable.UnauthorizedError, 403: LangfuseAPI.unstable.AccessDeniedError, 405: LangfuseAPI.unstable.MethodNotAllowedError, 429: LangfuseAPI.unstable.TooManyRequestsError, 500: LangfuseAPI.unstable.InternalServerError } : { 400: LangfuseAPI.Error, 401: LangfuseAPI.UnauthorizedError, 403: LangfuseAPI.AccessDeniedError, 404: LangfuseAPI.NotFoundError, 405: LangfuseAPI.MethodNotAllowedError };
      if (X[st]) $.assert(call + " error of status " + st, err instanceof X[st]);
      if (un && st === 404) $.assert(call + " not found", err instanceof LangfuseAPI.unstable.NotFoundError || err instanceof LangfuseAPI.NotFoundError);
    }
    const n = net($, () => undefined);
    const s = track(hasReq ? f(...ids, { a: 1 }, { timeoutInSeconds: 2 }) : f(...ids, { timeoutInSeconds: 2 }));
    await adv($, 1999);
    $.assert(call + " is pending until its timeout", !s.done && n.reqs.length === 1);
    await adv($, 2);
    $.assert(call + " times out", s.done && s.r.err instanceof LangfuseAPITimeoutError && n.reqs.length === 1);
    const n2 = net($, () => new Error("net"));
    const { err } = await out(hasReq ? f(...ids, { a: 1 }) : f(...ids));
    $.assert(call + " reports a network failure", err instanceof LangfuseAPIError && err.message === "net" && err.statusCode === undefined && n2.reqs.length === 1);
    $.assert("no timer is left behind", $.timers() === 0);
    $.cover(call + " checked");
  }
};
const retryable = (s) => s === 408 || s === 429 || s >= 500;
export const units = {
  retries: { clock: 1700000000000, run: async ($, T) => {
    const st = [0, 1, 2, 3].map((i) => $.in("s" + i, T.range(200, 599))), x = $.in("x", T.str);
    for (const s of st) $.assume(s === Math.floor(s));
    const n = net($, (i) => ({ status: st[i], text: JSON.stringify({ i, x }) }));
    const s = track(client().comments.create({ objectId: x }));
    await adv($, 100000);
    let want = 1;
    if (retryable(st[0])) { want = 2; if (retryable(st[1])) want = 3; }
    $.assert("retryable answers are retried, at most twice", s.done && n.reqs.length === want);
    const last = st[want - 1];
    if (last < 400) $.same("the last answer counts", s.r.ok, { i: want - 1, x });
    else $.assert("the last answer is the error", s.r.err instanceof LangfuseAPIError && s.r.err.statusCode === last);
    for (const r of n.reqs) $.assert("every attempt sends the same request", r.url === "https://h.example/api/public/comments" && r.method === "POST" && r.body === JSON.stringify({ objectId: x }) && r.headers.Authorization === n.reqs[0].headers.Authorization);
    for (let i = 1; i < want; i++) { const d = n.reqs[i].at - n.reqs[i - 1].at, base = 1000 * 2 ** (i - 1); $.assert("attempts back off exponentially", d >= base * 0.899 && d <= base * 1.101); }
    $.assert("no timer is left behind", $.timers() === 0);
  } },
  maxRetries: { clock: 1700000000000, run: async ($, T) => {
    const st = $.in("st", T.range(400, 599));
    $.assume(st === 408 || st === 429 || (st >= 500 && st === Math.floor(st)));
    for (const m of [0, 1, 2, 8]) {
    const n = net($, () => ({ status: st }));
    const s = track(client().health.health({ maxRetries: m }));
    await adv($, 1000000);
    $.assert("as many retries as asked for", s.done && s.r.err.statusCode === st && n.reqs.length === m + 1);
    for (let i = 1; i <= m; i++) { const d = n.reqs[i].at - n.reqs[i - 1].at, base = Math.min(60000, 1000 * 2 ** (i - 1)); $.assert("the wait is capped at a minute", d >= base * 0.899 && d <= base * 1.101); }
    }
  } },
  headers: { clock: 1700000000000, run: async ($, T) => {
    const t0 = 1700000000;
    const date = (s) => new Date((t0 + s) * 1000).toUTCString();
    for (const [headers, lo, hi] of [
      [{ "Retry-After": "1" }, 1000, 1000], [{ "Retry-After": "7" }, 7000, 7000], [{ "retry-after": "60" }, 60000, 60000], [{ "Retry-After": "61" }, 60000, 60000], [{ "Retry-After": "86400" }, 60000, 60000],
      [{ "Retry-After": date(5) }, 5000, 5000], [{ "Retry-After": date(500) }, 60000, 60000],
      [{ "Retry-After": "0" }, 900, 1100], [{ "Retry-After": "-3" }, 900, 1100], [{ "Retry-After": "soon" }, 900, 1100], [{ "Retry-After": "" }, 900, 1100], [{}, 900, 1100],
      [{ "Retry-After": "3", "X-RateLimit-Reset": String(t0 + 20) }, 3000, 3000],
      [{ "X-RateLimit-Reset": String(t0 + 20) }, 20000, 24000], [{ "X-RateLimit-Reset": String(t0 + 2000) }, 60000, 72000], [{ "Retry-After": "x", "X-RateLimit-Reset": String(t0 + 10) }, 10000, 12000],
      [{ "X-RateLimit-Reset": String(t0 - 5) }, 900, 1100], [{ "X-RateLimit-Reset": "never" }, 900, 1100],
    ]) {
      const n = net($, (i) => (i === 0 ? { status: 429, headers } : { status: 200, text: "{}" }));
      const f = Date.now; Date.now = () => t0 * 1000;
      const s = track(client().health.health());
      await adv($, 0); Date.now = f;
      await adv($, lo - 1);
      $.assert("not before the server's time", n.reqs.length === 1 && !s.done);
      await adv($, hi - lo + 2);
      $.assert("retried when the server says", n.reqs.length === 2 && s.done && "ok" in s.r);
      $.assert("no timer is left behind", $.timers() === 0);
    }
  } },
  noRetry: { clock: 1700000000000, run: async ($, T) => {
    const msg = $.in("msg", T.str), kind = $.in("kind", T.or(T.lit(0), T.lit(1), T.lit(2)));
    const n = net($, (i) => (kind === 0 ? new Error(msg) : kind === 1 ? "odd" : { status: 200, textError: new Error(msg) }));
    const s = track(client().health.health());
    await adv($, 200000);
    $.assert("failures of the connection are reported, not retried", s.done && n.reqs.length === 1 && s.r.err instanceof LangfuseAPIError && !(s.r.err instanceof LangfuseAPITimeoutError) && s.r.err.statusCode === undefined);
    $.assert("with their message", s.r.err.message === (kind === 1 ? '"odd"' : msg));
    $.assert("no timer is left behind", $.timers() === 0);
  } },
  timeout: { clock: 1700000000000, run: async ($, T) => {
    for (const [opt, ms] of [[undefined, 60000], [1, 1000], [0.5, 500], [120, 120000]]) for (const withSignal of [false, true]) {
      const n = net($, () => undefined), own = withSignal ? { abortSignal: new AbortController().signal } : {};
      const s = track(client().trace.get("t", {}, opt === undefined ? (withSignal ? own : undefined) : { timeoutInSeconds: opt, ...own }));
      await adv($, ms - 1);
      $.assert("waits until the timeout", !s.done && n.reqs.length === 1 && n.reqs[0].signal.aborted === false);
      await adv($, 2);
      $.assert("then gives up with a timeout error", s.done && s.r.err instanceof LangfuseAPITimeoutError && s.r.err instanceof Error && s.r.err.message.includes("GET /api/public/traces/{traceId}"));
      $.assert("the request is aborted and not repeated", n.reqs.length === 1 && n.reqs[0].signal.aborted === true && $.timers() === 0);
    }
    const n = net($, (i) => (i < 2 ? { status: 503 } : undefined));
    const s = track(client().trace.get("t", {}, { timeoutInSeconds: 10 }));
    await adv($, 5000);
    $.assert("the third attempt is under way", n.reqs.length === 3 && !s.done);
    await adv($, 10000);
    $.assert("every attempt has its own timeout", s.done && s.r.err instanceof LangfuseAPITimeoutError && n.reqs.length === 3);
  } },
  answered: { clock: 1700000000000, run: async ($, T) => {
    const x = $.in("x", T.str);
    const d = $.deferred();
    const n = { reqs: [] };
    globalThis.fetch = async (url, init) => { n.reqs.push(init); await d.promise; return { status: 200, headers: { get: () => null }, body: {}, text: async () => JSON.stringify({ x }) }; };
    const s = track(client().health.health({ timeoutInSeconds: 3 }));
    await adv($, 2000);
    d.resolve(); await $.drain();
    $.same("an answer within the timeout is the result", s.done ? s.r.ok : null, { x });
    $.assert("its timer is cleared", $.timers() === 0);
    await adv($, 100000);
    $.assert("and nothing is aborted later", n.reqs.length === 1 && n.reqs[0].signal.aborted === false);
  } },
  abort: { clock: 1700000000000, run: async ($, T) => {
    for (const when of ["before", "during", "waiting"]) {
      for (const reason of [undefined, "because", "timeout"]) {
        const c = new AbortController();
        const n = net($, () => (when === "waiting" ? { status: 503 } : undefined));
        if (when === "before") c.abort(reason);
        const s = track(client().health.health({ abortSignal: c.signal }));
        await adv($, 500);
        if (when !== "before") { $.assert("pending", !s.done && n.reqs.length === 1); c.abort(reason); }
        await adv($, 2000);
        $.assert("an aborted call fails as aborted", s.done && s.r.err instanceof LangfuseAPIError && !(s.r.err instanceof LangfuseAPITimeoutError) && s.r.err.statusCode === undefined && s.r.err.message === "The user aborted a request");
        if (when !== "waiting") $.assert("its request is aborted", n.reqs.length === 1 && n.reqs[0].signal.aborted === true);
        await adv($, 100000);
        $.assert("nothing is left behind", $.timers() === 0 && n.reqs.length <= 2);
      }
    }
    for (const st of [503, 404]) {
      const n = net($, (i) => (st === 503 && i < 2 ? { status: st } : { status: st === 503 ? 200 : st, text: "{}" }));
      const s = track(client().health.health({ abortSignal: new AbortController().signal }));
      await adv($, 100000);
      $.assert("a signal that is never aborted changes nothing", s.done && (st === 503 ? "ok" in s.r && n.reqs.length === 3 : s.r.err.statusCode === 404 && n.reqs.length === 1) && $.timers() === 0);
    }
    const c = new AbortController(), n = net($, () => ({ status: 200, text: "{}" }));
    const r = await out(client().health.health({ abortSignal: c.signal }));
    c.abort();
    $.assert("aborting after the answer does nothing", "ok" in r && n.reqs.length === 1);
  } },
  success: { clock: 1700000000000, run: async ($, T) => {
    const st = $.in("st", T.range(200, 399)), x = $.in("x", T.str), k = $.in("k", T.or(T.str, T.num, T.bool, T.nul));
    $.assume(st === Math.floor(st));
    const n = net($, () => ({ status: st, text: JSON.stringify({ x, k, l: [k, { x }] }) }));
    const s = track(client().health.health());
    await adv($, 0);
    $.same("the parsed answer is returned", s.done ? s.r.ok : null, { x, k, l: [k, { x }] });
    $.assert("one request", n.reqs.length === 1);
  } },
  errorBodies: { clock: 1700000000000, run: async ($, T) => {
    const x = $.in("x", T.strOf({ nonEmpty: true }));
    for (const [ct, text, want] of [["application/json", JSON.stringify({ x }), { x }], ["application/problem+json", JSON.stringify([x]), [x]], ["APPLICATION/JSON; charset=utf-8", JSON.stringify({ x }), { x }], ["application/vnd.acme+json", JSON.stringify({ x }), { x }], ["text/html", x, x], ["text/plain; charset=utf-8", x, x], [undefined, JSON.stringify({ x }), { x }], ["application/json", "", undefined]]) {
      net($, () => ({ status: 404, text, headers: ct === undefined ? {} : { "Content-Type": ct } }));
      const { err } = await out(client().media.get("m"));
      $.assert("the error names its status", err instanceof LangfuseAPI.NotFoundError && err.statusCode === 404);
      $.same("and carries the answer", err.body, want);
    }
  } },
  raw: async ($, T) => {
    net($, () => ({ status: 404, text: "{}" }));
    const { err } = await out(client().media.get("m").withRawResponse());
    $.assert("raw access rejects the same way", err instanceof LangfuseAPI.NotFoundError && err.statusCode === 404);
    const fin = [];
    const r = await out(client().media.get("m").finally(() => fin.push(1)));
    $.assert("the call is a promise: catch and finally work", fin.length === 1 && r.err instanceof LangfuseAPI.NotFoundError);
    const v = await client().media.get("m").catch((e) => e.statusCode);
    $.assert("catch", v === 404);
  },
  errors0: { run: table(0, 20), clock: 1700000000000 },
  errors1: { run: table(20, 40), clock: 1700000000000 },
  errors2: { run: table(40, 60), clock: 1700000000000 },
  errors3: { run: table(60, 80), clock: 1700000000000 },
  errors4: { run: table(80, 100), clock: 1700000000000 },
  errors5: { run: table(100, 120), clock: 1700000000000 },
};
