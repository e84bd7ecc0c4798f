/*META {"trusted":["OpenTelemetry SDK span processors and exporter (models/opentelemetry__*.js)"]} */
import { recorder, mkSpan, mkProc } from "./lib/proc.js";
const I = "langfuse.observation.input";
export const units = {
  once: async ($, T) => {
    const k1 = $.in("k1", T.str), v1 = $.in("v1", T.any), v2 = $.in("v2", T.any), attributes = { [k1]: v1, [I]: v2 }, maskMode = $.in("mask", T.lit("none", "ok", "throw"));
    const ex = recorder();
    const proc = mkProc(ex, maskMode === "none" ? {} : { mask: () => { if (maskMode === "throw") throw new Error("x"); return "m"; } });
    const span = mkSpan({ attributes });
    const r = proc.onEnd(span);
    $.assert("returns nothing", r === undefined);
    await proc.forceFlush();
    $.assert("handed to the exporter exactly once", ex.spans.length === 1 && ex.spans[0] === span);
    await proc.forceFlush();
    $.assert("never again", ex.spans.length === 1);
  },
  flushWaits: async ($, T) => {
    const aFirst = $.in("aFirst", T.bool), order = aFirst ? ["a", "b"] : ["b", "a"], how = $.in("how", T.lit("flush", "shutdown")), failA = $.in("failA", T.bool);
    const gates = { a: $.deferred(), b: $.deferred() }, ex = recorder();
    const proc = mkProc(ex, { mask: async ({ data }) => { await gates[data].promise; if (data === "a" && failA) throw new Error("x"); return "m"; } });
    const A = mkSpan({ attributes: { [I]: "a" } }), B = mkSpan({ attributes: { [I]: "b" } }), C = mkSpan({ attributes: {} });
    proc.onEnd(A); proc.onEnd(B); proc.onEnd(C);
    let done = false;
    const p = (how === "flush" ? proc.forceFlush() : proc.shutdown()).then(() => { done = true; });
    await $.drain();
    $.assert("not resolved while spans are pending", done === false && ex.flushes === 0 && ex.shutdowns === 0);
    gates[order[0]].resolve();
    await $.drain();
    $.assert("still pending with one span left", done === false && ex.flushes === 0 && ex.shutdowns === 0);
    gates[order[1]].resolve();
    await p;
    $.assert("every ended span was handed over before the downstream flush", ex.atFlush === 3 && ex.spans.length === 3);
    $.assert("each exactly once", ex.spans.includes(A) && ex.spans.includes(B) && ex.spans.includes(C));
    $.assert("downstream is flushed or shut down once", how === "flush" ? ex.flushes === 1 && ex.shutdowns === 0 : ex.shutdowns === 1 && ex.flushes === 0);
  },
  // three spans, finishing in every order, with a flush or shutdown after any number of them
  anyTime: { runs: 2, run: async ($, T) => {
    for (const order of [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]) for (const at of [0, 1, 2, 3]) for (const failing of [-1, 0, 1, 2]) for (const how of ["forceFlush", "shutdown"]) {
      const gates = [$.deferred(), $.deferred(), $.deferred()], ex = recorder();
      const proc = mkProc(ex, { mask: async ({ data }) => { await gates[Number(data)].promise; if (Number(data) === failing) throw new Error("x"); return "m"; } });
      const spans = [0, 1, 2].map((i) => mkSpan({ id: "s" + i, attributes: { [I]: String(i) } }));
      for (const s of spans) proc.onEnd(s);
      let done = false, p;
      for (let k = 0; k <= 3; k++) {
        if (k === at) p = proc[how]().then(() => { done = true; });
        await $.drain();
        if (k >= at && k < 3) $.assert("pending while one of the spans is, whatever finished before", done === false && ex.flushes === 0 && ex.shutdowns === 0);
        if (k < 3) gates[order[k]].resolve();
      }
      await p;
      $.assert("every span ended before is handed over before the downstream flush", ex.atFlush === 3 && ex.spans.length === 3 && spans.every((s) => ex.spans.includes(s)));
    }
  } },
  uploadsWaited: async ($, T) => {
    const how = $.in("how", T.lit("flush", "shutdown")), fail = $.in("fail", T.bool);
    const ex = recorder(), gate = $.deferred();
    const proc = mkProc(ex, { mediaUploadEnabled: true });
    let calls = 0;
    globalThis.fetch = async (url) => { if (!String(url).endsWith("/api/public/media")) throw new Error("unexpected " + url); calls++; await gate.promise; if (fail) throw new Error("x"); return { status: 200, ok: true, headers: { get: () => null }, body: {}, text: async () => '{"mediaId":"m","uploadUrl":null}' }; };
    proc.onEnd(mkSpan({ attributes: { [I]: "x data:text/plain;base64,aGVsbG8= y" } }));
    let done = false;
    const p = (how === "flush" ? proc.forceFlush() : proc.shutdown()).then(() => { done = true; });
    for (let i = 0; i < 4; i++) await $.advance(1);
    $.assert("upload started", calls === 1);
    $.assert("the span is exported without waiting for the upload", ex.spans.length === 1);
    $.assert("flush waits for the upload", done === false);
    gate.resolve();
    await p;
    $.assert("downstream flushed after the upload, even if it failed", how === "flush" ? ex.flushes === 1 : ex.shutdowns === 1);
  },
  downstreamError: async ($, T) => {
    const ex = recorder(), n = $.in("failing", T.lit(0, 1, 2));
    const boom = ex.onSpan; let k = 0;
    ex.onSpan = (s) => { if (k++ === n) throw new Error("exporter"); boom(s); };
    const proc = mkProc(ex), spans = [mkSpan({}), mkSpan({}), mkSpan({})];
    for (const s of spans) proc.onEnd(s);
    await proc.forceFlush();
    $.assert("one failing span does not affect the others", ex.spans.length === 2 && spans.every((s, i) => i === n || ex.spans.includes(s)));
    $.assert("flush still reaches the exporter", ex.flushes === 1);
  },
  lateSpans: async ($, T) => {
    const ex = recorder(), gate = $.deferred();
    const proc = mkProc(ex, { mask: async () => { await gate.promise; return "m"; } });
    await proc.forceFlush();
    $.assert("flush with nothing pending resolves", ex.flushes === 1 && ex.spans.length === 0);
    proc.onEnd(mkSpan({ attributes: { [I]: "x" } }));
    const p1 = proc.forceFlush(), p2 = proc.forceFlush();
    await $.drain();
    $.assert("both wait", $.stateOf(p1) === "pending" && $.stateOf(p2) === "pending");
    gate.resolve();
    await p1; await p2;
    $.assert("one export", ex.spans.length === 1 && ex.atFlush === 1);
  },
  modes: ($, T) => {
    const mode = $.in("mode", T.opt(T.lit("immediate", "batched"))), flushAt = $.in("flushAt", T.opt(T.range(1, 1000))), interval = $.in("interval", T.opt(T.range(1, 1000)));
    const ex = recorder();
    mkProc(ex, { exportMode: mode, flushAt, flushInterval: interval });
    const p = ex.processors[0];
    $.assert("immediate mode exports without batching", p.kind === (mode === "immediate" ? "simple" : "batch"));
    if (mode !== "immediate") $.assert("batch size and delay as configured", p.options.maxExportBatchSize === flushAt && p.options.scheduledDelayMillis === (interval === undefined ? undefined : interval * 1000));
  },
  modesFromEnvironment: ($, T) => {
    const interval = $.in("interval", T.opt(T.range(1, 1000)));
    for (const at of [undefined, 7]) for (const [vat, vint] of [[undefined, undefined], ["25", "3"], ["1", undefined], [undefined, "0.5"]]) {
      if (vat !== undefined) process.env.LANGFUSE_FLUSH_AT = vat;
      if (vint !== undefined) process.env.LANGFUSE_FLUSH_INTERVAL = vint;
      const ex = recorder();
      mkProc(ex, { flushAt: at, flushInterval: interval });
      delete process.env.LANGFUSE_FLUSH_AT; delete process.env.LANGFUSE_FLUSH_INTERVAL;
      const o = ex.processors[0].options, sec = interval ?? (vint === undefined ? undefined : Number(vint));
      $.assert("options over variables over the defaults", ex.processors[0].kind === "batch" && o.maxExportBatchSize === (at ?? (vat === undefined ? undefined : Number(vat))) && o.scheduledDelayMillis === (sec === undefined ? undefined : sec * 1000));
    }
  },
  startForwarded: ($, T) => {
    const ex = recorder(), span = mkSpan({}), ctx = { getValue: () => undefined, setValue() { return ctx; }, deleteValue() { return ctx; } };
    const proc = mkProc(ex);
    proc.onStart(span, ctx);
    $.assert("span start forwarded with its context", ex.processors[0].started.length === 1 && ex.processors[0].started[0].span === span && ex.processors[0].started[0].ctx === ctx);
  },
};
