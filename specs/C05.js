/*META {"trusted":["@opentelemetry/api 1.9 (interpreted, not modelled)","harness tracer provider and span (specs/lib/otel.js)"]} */
import { oddValues } from "./lib/odd.js";
import { startActiveObservation, observe, getActiveSpanId, getActiveTraceId } from "@langfuse/tracing";
import { setupOtel, context, trace } from "./lib/otel.js";
const ser = (x) => { if (typeof x === "string") return x; if (x === undefined || x === null) return undefined; try { return JSON.stringify(x); } catch { return "<failed to serialize>"; } };
const P = "langfuse.observation.";
const UPD = ["span", "generation", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"];
const expEnds = (endOnExit) => (endOnExit === false ? 0 : 1);
export const units = {
  activeSync: ($, T) => {
    const provider = setupOtel();
    const r = $.in("result", T.any), type = $.in("type", T.opt(T.lit(...UPD))), endOnExit = $.in("endOnExit", T.opt(T.bool)), name = $.in("name", T.str);
    let n = 0, inner, seen, endedInside;
    const got = startActiveObservation(name, (o) => { n++; inner = o; seen = getActiveSpanId(); endedInside = provider.spans[0].endCount; return r; }, { asType: type, endOnExit });
    const sp = provider.spans[0];
    $.assert("callback runs once", n === 1);
    $.assert("result passed through", got === r || Object.is(got, r));
    $.assert("the observation is active inside", seen === sp.ctx.spanId && inner.id === sp.ctx.spanId);
    $.assert("requested type", inner.type === (type ?? "span") && sp.attributes[P + "type"] === (type ?? "span"));
    $.assert("span not ended while the callback runs", endedInside === 0);
    $.assert("ended exactly once on exit unless disabled", sp.endCount === expEnds(endOnExit));
    $.assert("no error status", sp.statuses.length === 0);
    $.assert("previous context restored", getActiveSpanId() === undefined);
    $.assert("one span", provider.spans.length === 1 && sp.name === name);
  },
  activeSyncThrow: ($, T) => {
    const provider = setupOtel();
    const isErr = $.in("isError", T.bool), msg = $.in("msg", T.str), endOnExit = $.in("endOnExit", T.opt(T.bool));
    const err = isErr ? new Error(msg) : { msg };
    let caught, n = 0;
    try { startActiveObservation("x", () => { n++; throw err; }, { endOnExit }); } catch (e) { caught = e; }
    const sp = provider.spans[0];
    $.assert("callback ran once", n === 1);
    $.assert("the very same error is rethrown", caught === err);
    $.assert("error status recorded", sp.statuses.length === 1 && sp.statuses[0].code === 2);
    if (isErr) $.assert("error message recorded", sp.statuses[0].message === msg);
    $.assert("ended exactly once", sp.endCount === expEnds(endOnExit));
    $.assert("context restored", getActiveSpanId() === undefined);
  },
  activeAsync: async ($, T) => {
    const provider = setupOtel();
    const r = $.in("result", T.any), endOnExit = $.in("endOnExit", T.opt(T.bool)), type = $.in("type", T.opt(T.lit(...UPD)));
    const gate = $.deferred();
    let seen;
    const p = startActiveObservation("x", async (o) => { await gate.promise; seen = getActiveSpanId(); return r; }, { endOnExit, asType: type });
    const sp = provider.spans[0];
    await $.drain();
    $.assert("not ended before the promise settles", sp.endCount === 0);
    $.assert("caller context unaffected while pending", getActiveSpanId() === undefined);
    gate.resolve();
    const got = await p;
    $.assert("resolves with the callback's value", got === r || Object.is(got, r));
    $.assert("active across awaits", seen === sp.ctx.spanId);
    $.assert("ended exactly once after settling", sp.endCount === expEnds(endOnExit));
    $.assert("no error status", sp.statuses.length === 0);
  },
  activeAsyncReject: async ($, T) => {
    const provider = setupOtel();
    const endOnExit = $.in("endOnExit", T.opt(T.bool)), isErr = $.in("isError", T.bool), msg = $.in("msg", T.str);
    const err = isErr ? new Error(msg) : { msg };
    let caught;
    try { await startActiveObservation("x", async () => { await Promise.resolve(); throw err; }, { endOnExit }); } catch (e) { caught = e; }
    const sp = provider.spans[0];
    $.assert("rejects with the very same error", caught === err);
    $.assert("error status recorded once", sp.statuses.length === 1 && sp.statuses[0].code === 2);
    if (isErr) $.assert("error message recorded", sp.statuses[0].message === msg);
    $.assert("ended exactly once", sp.endCount === expEnds(endOnExit));
  },
  nesting: ($, T) => {
    const provider = setupOtel();
    const thrown = $.in("innerThrows", T.bool);
    let after;
    try {
      startActiveObservation("a", () => {
        try { startActiveObservation("b", () => { if (thrown) throw new Error("x"); }); } catch {}
        after = getActiveSpanId();
        startActiveObservation("c", () => 1);
      });
    } catch {}
    const [a, b, c] = provider.spans;
    $.assert("b and c are children of a", b.parentCtx.spanId === a.ctx.spanId && c.parentCtx.spanId === a.ctx.spanId);
    $.assert("same trace", b.ctx.traceId === a.ctx.traceId && c.ctx.traceId === a.ctx.traceId);
    $.assert("a is active again after b", after === a.ctx.spanId);
    $.assert("each ended once", a.endCount === 1 && b.endCount === 1 && c.endCount === 1);
  },
  explicitParent: ($, T) => {
    const provider = setupOtel();
    const traceId = $.in("traceId", T.strOf({ nonEmpty: true })), spanId = $.in("spanId", T.strOf({ nonEmpty: true })), which = $.in("which", T.bool);
    const parentSpanContext = { traceId, spanId, traceFlags: 1 };
    if (which) startActiveObservation("x", () => 1, { parentSpanContext });
    else observe(() => 1, { parentSpanContext })();
    $.assert("attached to the given parent", provider.spans[0].parentCtx.traceId === traceId && provider.spans[0].parentCtx.spanId === spanId);
  },
  observeSync: ($, T) => {
    const provider = setupOtel();
    const cnt = $.in("count", T.lit(0, 1, 2)), a = $.in("a", T.any), b = $.in("b", T.any), args = cnt === 0 ? [] : cnt === 1 ? [a] : [a, b], r = $.in("result", T.any), self = { id: 1 };
    const captureInput = $.in("captureInput", T.opt(T.bool)), captureOutput = $.in("captureOutput", T.opt(T.bool)), endOnExit = $.in("endOnExit", T.opt(T.bool)), type = $.in("type", T.opt(T.lit(...UPD)));
    let gotArgs, gotThis, n = 0, seen;
    const f = observe(function (...as) { n++; gotArgs = as; gotThis = this; seen = getActiveSpanId(); return r; }, { name: "f", captureInput, captureOutput, endOnExit, asType: type });
    const got = f.apply(self, args);
    const sp = provider.spans[0];
    $.assert("called once", n === 1);
    $.same("arguments passed through", gotArgs, args);
    $.assert("this passed through", gotThis === self);
    $.assert("result passed through", got === r || Object.is(got, r));
    $.assert("active inside", seen === sp.ctx.spanId);
    $.assert("ended exactly once unless disabled", sp.endCount === expEnds(endOnExit));
    $.assert("type", sp.attributes[P + "type"] === (type ?? "span"));
    const inp = args.length === 0 ? undefined : args.length === 1 ? args[0] : args;
    if (captureInput === false) $.assert("input not captured when disabled", sp.attributes[P + "input"] === undefined);
    else $.assert("input captured", sp.attributes[P + "input"] === ser(inp));
    if (captureOutput === false) $.assert("output not captured when disabled", sp.attributes[P + "output"] === undefined);
    else $.assert("output captured", sp.attributes[P + "output"] === ser(r));
    $.assert("no write after end", sp.writesAfterEnd === 0);
    $.assert("context restored", getActiveSpanId() === undefined);
  },
  observeName: ($, T) => {
    const provider = setupOtel();
    const given = $.in("name", T.strOf({ nonEmpty: true }));
    observe(() => 1, { name: given })();
    function fetchUser() { return 1; }
    observe(fetchUser)();
    observe((() => () => 1)())();
    $.assert("named as given", provider.spans[0].name === given);
    $.assert("or after the function", provider.spans[1].name === "fetchUser");
    $.assert("or as anonymous", provider.spans[2].name === "anonymous-function");
  },
  observeThrow: ($, T) => {
    const provider = setupOtel();
    const isErr = $.in("isError", T.bool), msg = $.in("msg", T.str), captureOutput = $.in("captureOutput", T.opt(T.bool)), endOnExit = $.in("endOnExit", T.opt(T.bool)), type = $.in("type", T.opt(T.lit(...UPD)));
    const err = isErr ? new Error(msg) : $.in("asText", T.bool) ? msg : { msg };
    let caught, n = 0;
    const f = observe(() => { n++; throw err; }, { name: "f", captureOutput, endOnExit, asType: type });
    try { f(); } catch (e) { caught = e; }
    const sp = provider.spans[0];
    $.assert("called once", n === 1);
    $.assert("same error rethrown", caught === err);
    $.assert("level ERROR", sp.attributes[P + "level"] === "ERROR");
    if (msg && (isErr || err === msg)) $.assert("status message", sp.attributes[P + "status_message"] === msg);
    $.assert("status message is never empty", !!sp.attributes[P + "status_message"]);
    if (captureOutput === false) $.assert("no output when disabled", sp.attributes[P + "output"] === undefined);
    $.assert("ended exactly once", sp.endCount === expEnds(endOnExit));
    $.assert("no write after end", sp.writesAfterEnd === 0);
  },
  observeAsync: async ($, T) => {
    const provider = setupOtel();
    const r = $.in("result", T.any), captureOutput = $.in("captureOutput", T.opt(T.bool)), endOnExit = $.in("endOnExit", T.opt(T.bool)), type = $.in("type", T.opt(T.lit(...UPD)));
    const gate = $.deferred();
    const f = observe(async () => { await gate.promise; return r; }, { name: "f", captureOutput, endOnExit, asType: type });
    const p = f();
    const sp = provider.spans[0];
    await $.drain();
    $.assert("not ended while pending", sp.endCount === 0 && sp.attributes[P + "output"] === undefined);
    gate.resolve();
    const got = await p;
    $.assert("resolves with the value", got === r || Object.is(got, r));
    if (captureOutput === false) $.assert("output not captured when disabled", sp.attributes[P + "output"] === undefined);
    else $.assert("output captured", sp.attributes[P + "output"] === ser(r));
    $.assert("ended exactly once", sp.endCount === expEnds(endOnExit));
    $.assert("no write after end", sp.writesAfterEnd === 0);
  },
  observeAsyncReject: async ($, T) => {
    const provider = setupOtel();
    const isErr = $.in("isError", T.bool), msg = $.in("msg", T.str), captureOutput = $.in("captureOutput", T.opt(T.bool)), endOnExit = $.in("endOnExit", T.opt(T.bool));
    const err = isErr ? new Error(msg) : $.in("asText", T.bool) ? msg : { msg };
    let caught;
    const f = observe(async () => { await Promise.resolve(); throw err; }, { name: "f", captureOutput, endOnExit });
    try { await f(); } catch (e) { caught = e; }
    const sp = provider.spans[0];
    $.assert("rejects with the same error", caught === err);
    $.assert("level ERROR", sp.attributes[P + "level"] === "ERROR");
    if (msg && (isErr || err === msg)) $.assert("status message", sp.attributes[P + "status_message"] === msg);
    $.assert("status message is never empty", !!sp.attributes[P + "status_message"]);
    if (captureOutput === false) $.assert("no output when disabled", sp.attributes[P + "output"] === undefined);
    $.assert("ended exactly once", sp.endCount === expEnds(endOnExit));
    $.assert("no write after end", sp.writesAfterEnd === 0);
  },
  anyThrown: async ($, T) => {
    const provider = setupOtel();
    const captureOutput = $.in("captureOutput", T.opt(T.bool));
    for (const err of oddValues()) for (const how of ["observe", "observeAsync", "active", "activeAsync"]) {
      provider.spans.length = 0;
      let caught = "nothing", n = 0;
      const bad = how.endsWith("Async") ? async () => { n++; await null; throw err; } : () => { n++; throw err; };
      try { await (how.startsWith("observe") ? observe(bad, { name: "f", captureOutput })() : startActiveObservation("f", bad)); } catch (e) { caught = e; }
      $.assert(how + ": whatever was thrown reaches the caller", n === 1 && (caught === err || Object.is(caught, err)));
      const sp = provider.spans[0];
      $.assert(how + ": and the observation ended once, as an error", provider.spans.length === 1 && sp.endCount === 1 && sp.writesAfterEnd === 0 && (sp.attributes[P + "level"] === "ERROR" || sp.statuses.some((x) => x.code === 2)));
    }
  },
  observeEvent: ($, T) => {
    const provider = setupOtel();
    const r = $.in("result", T.any), throws = $.in("throws", T.bool), err = { tag: 1 };
    let got, caught;
    try { got = observe(() => { if (throws) throw err; return r; }, { name: "e", asType: "event" })(); } catch (e) { caught = e; }
    if (throws) $.assert("same error rethrown", caught === err);
    else { $.assert("no error of its own", caught === undefined); $.assert("result passed through", got === r || Object.is(got, r)); }
    $.assert("event ended once", provider.spans[0].endCount === 1);
  },
  activeEvent: async ($, T) => {
    const provider = setupOtel();
    const r = $.in("result", T.any), throws = $.in("throws", T.bool), isAsync = $.in("async", T.bool), err = { tag: 1 };
    let got, caught, n = 0, type;
    const body = (o) => { n++; type = o.type; if (throws) throw err; return r; };
    try { const p = startActiveObservation("e", isAsync ? async (o) => { await Promise.resolve(); return body(o); } : body, { asType: "event" }); got = isAsync ? await p : p; } catch (e) { caught = e; }
    $.assert("called once with an event", n === 1 && type === "event");
    if (throws) $.assert("same error", caught === err);
    else { $.assert("no error of its own", caught === undefined); $.assert("result passed through", got === r || Object.is(got, r)); }
    $.assert("event has ended", provider.spans[0].endCount >= 1);
    $.assert("context restored", getActiveSpanId() === undefined);
  },
  observeEventAsync: async ($, T) => {
    const provider = setupOtel();
    const r = $.in("result", T.any), throws = $.in("throws", T.bool), err = { tag: 1 };
    let got, caught;
    try { got = await observe(async () => { await Promise.resolve(); if (throws) throw err; return r; }, { name: "e", asType: "event" })(); } catch (e) { caught = e; }
    if (throws) $.assert("same error", caught === err);
    else { $.assert("no error of its own", caught === undefined); $.assert("result passed through", got === r || Object.is(got, r)); }
  },
};
