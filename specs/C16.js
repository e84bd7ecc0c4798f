/*META {"trusted":["API client method ingestion.batch (harness stub that settles when the harness says so)"],"assumptions":["LANGFUSE_FLUSH_AT / LANGFUSE_FLUSH_INTERVAL hold numbers","histories start at a fixed wall-clock time (the clock only feeds timestamps and generated ids; units body and targets leave it free)"]} */
import { ScoreManager } from "@repo/packages/client/src/score/index.ts";
import { setupOtel, trace, context, ROOT_CONTEXT } from "./lib/otel.js";
const clearEnv = () => { for (const k of ["LANGFUSE_FLUSH_AT", "LANGFUSE_FLUSH_INTERVAL", "LANGFUSE_TRACING_ENVIRONMENT"]) delete process.env[k]; };
function mk($, at, interval) {
  clearEnv();
  if (at !== undefined) process.env.LANGFUSE_FLUSH_AT = String(at);
  if (interval !== undefined) process.env.LANGFUSE_FLUSH_INTERVAL = String(interval);
  const h = { made: 0, batches: [], settled: 0, open: [], auto: true, fail: false, flushes: 0, early: false };
  h.api = { ingestion: { batch: (req) => {
    const b = { events: req.batch, done: false }; h.batches.push(b);
    if (h.auto) { b.done = true; return h.fail ? Promise.reject(new Error("ingest")) : Promise.resolve({ successes: [], errors: [] }); }
    const d = $.deferred(); h.open.push({ d, b }); return d.promise;
  } } };
  h.m = new ScoreManager({ apiClient: h.api });
  h.create = () => { const i = ++h.made; h.m.create({ id: "s" + i, name: "n", value: i, traceId: "t" }); };
  h.sent = () => { const out = []; for (const b of h.batches) for (const e of b.events) out.push(e.body.id); return out; };
  h.flush = () => { const n = h.made; h.flushes++; return h.m.flush().then(() => { h.flushes--; let done = 0; for (const b of h.batches) if (b.done) done += b.events.length; if (done < n) h.early = true; }); };
  h.settle = (ok) => { const o = h.open.shift(); if (!o) return; o.b.done = true; if (ok) o.d.resolve({ successes: [], errors: [{ id: "x", status: 400 }] }); else o.d.reject(new Error("ingest")); };
  return h;
}
const inOrder = (h) => { const s = h.sent(); let ok = s.length === h.made; for (let i = 0; i < s.length; i++) if (s[i] !== "s" + (i + 1)) ok = false; return ok; };
const OPS = ["create", "flush", "ok", "fail", "time"];
async function step($, h, op) {
  if (op === "create") h.create();
  else if (op === "flush") { h.flush(); await $.drain(); }
  else if (op === "ok") { h.settle(true); await $.drain(); }
  else if (op === "fail") { h.settle(false); await $.drain(); }
  else await $.advance(1000);
}
export const units = {
  body: async ($, T) => {
    const h = mk($, 1);
    const given = $.in("given", T.obj({ id: T.opt(T.str), environment: T.opt(T.str), name: T.str, value: T.or(T.num, T.str), traceId: T.opt(T.str), sessionId: T.opt(T.str), observationId: T.opt(T.str), datasetRunId: T.opt(T.str), comment: T.opt(T.str), dataType: T.opt(T.lit("NUMERIC", "BOOLEAN", "CATEGORICAL")), configId: T.opt(T.str), metadata: T.opt(T.any), queueId: T.opt(T.str) }));
    const env = $.in("env", T.opt(T.strOf({ nonEmpty: true })));
    if (env !== undefined) process.env.LANGFUSE_TRACING_ENVIRONMENT = env;
    h.m.create(given);
    await h.m.flush();
    $.assert("sent once", h.batches.length === 1 && h.batches[0].events.length === 1);
    const e = h.batches[0].events[0], b = e.body;
    $.assert("a score event", e.type === "score-create" && typeof e.id === "string" && e.id !== "" && typeof e.timestamp === "string");
    for (const k of ["name", "value", "traceId", "sessionId", "observationId", "datasetRunId", "comment", "dataType", "configId", "metadata", "queueId"]) $.same("given fields are sent", b[k], given[k]);
    $.assert("id", given.id !== undefined ? b.id === given.id : typeof b.id === "string" && b.id !== "");
    $.assert("environment", b.environment === (given.environment !== undefined ? given.environment : env));
    clearEnv();
  },
  targets: async ($, T) => {
    setupOtel({});
    const h = mk($, 1), data = { name: $.in("name", T.str), value: $.in("value", T.num), comment: $.in("comment", T.opt(T.str)) }, how = $.in("how", T.lit("observation", "trace", "activeObservation", "activeTrace")), active = $.in("active", T.bool);
    const span = trace.getTracer("x").startSpan("s");
    const { traceId, spanId } = span.spanContext();
    if (how === "observation" || how === "trace") h.m[how]({ otelSpan: span }, data);
    else if (active) context.with(trace.setSpan(ROOT_CONTEXT, span), () => h.m[how](data));
    else context.with(ROOT_CONTEXT, () => h.m[how](data));
    await h.m.flush();
    if (how.startsWith("active") && !active) return $.assert("nothing to score, nothing sent", h.batches.length === 0);
    const b = h.batches[0].events[0].body;
    $.assert("scores the right trace and observation", h.batches.length === 1 && b.traceId === traceId && b.observationId === (how === "trace" || how === "activeTrace" ? undefined : spanId));
    $.assert("with the data given", b.name === data.name && b.value === data.value && b.comment === data.comment && b.sessionId === undefined && b.datasetRunId === undefined);
  },
  threshold: { clock: 1700000000000, run: async ($, T) => {
    const n = $.in("n", T.range(0, 12));
    for (const at of [undefined, 1, 2, 3, 7]) {
      const h = mk($, at), lim = at ?? 10;
      let want = 0;
      for (let i = 0; i < 12; i++) { if (i >= n) break; h.create(); if (h.made % lim === 0) want = h.made; }
      await $.drain();
      $.assert("sent as soon as the flush count is reached", h.sent().length === want && $.timers() <= 1);
      await $.advance(1000);
      $.assert("the rest after the flush interval", inOrder(h));
      await $.advance(10000);
      $.assert("nothing is sent twice", inOrder(h));
    }
  } },
  interval: { clock: 1700000000000, run: async ($, T) => {
    for (const iv of [undefined, 1, 2, 5, 0.5]) {
      const h = mk($, undefined, iv), ms = (iv ?? 1) * 1000;
      h.create(); await $.advance(ms - 1);
      h.create(); await $.drain();
      $.assert("not before the interval", h.batches.length === 0);
      await $.advance(1);
      $.assert("all queued scores at the interval after the first", inOrder(h) && h.batches.length === 1);
      h.create(); await $.advance(ms);
      $.assert("and again", inOrder(h) && h.batches.length === 2);
    }
  } },
  history: { clock: 1700000000000, maxPaths: 1000, noUnhandled: true, run: async ($, T) => {
    const h = mk($, 10); h.auto = false;
    h.create();
    for (let i = 0; i < 4; i++) await step($, h, $.in("op" + i, T.lit(...OPS)));
    h.auto = true;
    let settled = false;
    await $.advance(1000);
    $.assert("everything is sent within the interval, in order, once", inOrder(h));
    while (h.open.length) { h.settle(true); await $.drain(); }
    $.assert("flush waits for the requests of all earlier scores", !h.early && h.flushes === 0);
  } },
  inflight: { clock: 1700000000000, noUnhandled: true, run: async ($, T) => {
    const first = $.in("first", T.lit("auto", "timer", "flush", "shutdown")), ok = $.in("ok", T.bool), how = $.in("how", T.lit("flush", "shutdown"));
    const h = mk($, $.in("low", T.bool) ? 1 : 10); h.auto = false;
    h.create();
    let p0;
    if (first === "timer") await $.advance(1000); else if (first === "flush") p0 = h.m.flush(); else if (first === "shutdown") p0 = h.m.shutdown(); 
    h.create();
    let done = false;
    const p = h.m[how]().then(() => { done = true; });
    await $.drain();
    $.assert("scores created during a flush are sent by the next flush", inOrder(h));
    const k = h.open.length;
    for (let i = 0; i < k; i++) { $.assert("unresolved while a request is pending", done === false); h.settle(ok); await $.drain(); }
    $.assert("resolves once all requests settled, also when they failed", done === true && k >= 1);
    await p; await p0;
    h.create(); await $.advance(1000);
    $.assert("later scores are still sent", inOrder(h));
  } },
  // three flushes in flight, whose requests settle in every order; a further flush after any number of them has to wait for the rest
  overlapping: { runs: 2, clock: 1700000000000, noUnhandled: true, run: async ($, T) => {
    for (const order of [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]) for (const at of [0, 1, 2, 3]) for (const ok of [true, false]) for (const how of ["flush", "shutdown"]) {
      const h = mk($, 10); h.auto = false;
      const done = [false, false, false]; let last = false, p; const ps = [];
      for (let i = 0; i < 3; i++) { h.create(); ps.push(h.m.flush().then(() => { done[i] = true; })); if (i % 2) await $.drain(); }
      await $.drain();
      $.assert("each flush sends what was queued", h.open.length === 3 && inOrder(h));
      const settled = [false, false, false], reqs = h.open.slice();
      for (let k = 0; k <= 3; k++) {
        if (k === at) p = h.m[how]().then(() => { last = true; });
        await $.drain();
        for (let i = 0; i < 3; i++) for (let j = 0; j <= i; j++) if (!settled[j]) $.assert("a flush waits for the requests of all scores created before it", !done[i]);
        if (k >= at && k < 3) $.assert("also one made while others are in flight and some have finished", last === false);
        if (k < 3) { const o = reqs[order[k]]; settled[order[k]] = true; if (ok) o.d.resolve({ successes: [], errors: [] }); else o.d.reject(new Error("ingest")); await $.drain(); }
      }
      for (const q of ps) await q;
      await p;
      $.assert("then all resolve", last && done.every((d) => d) && h.batches.length === 3);
    }
  } },
  batches: { bounded: "queue lengths 0 to 305", run: async ($, T) => {
    const n = $.in("n", T.range(0, 305)), failFirst = $.in("fail", T.bool);
    const h = mk($, 100000); h.fail = failFirst;
    for (let i = 0; i < n; i++) h.create();
    await h.flush();
    $.assert("batches of at most 100, all sent, in order", inOrder(h) && h.batches.every((b) => b.events.length > 0 && b.events.length <= 100) && h.batches.length === Math.ceil(n / 100));
  } },
};
