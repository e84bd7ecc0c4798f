/*META {"trusted":["OpenTelemetry SDK span processors and exporter (models/opentelemetry__*.js)"]} */
import { oddValues } from "./lib/odd.js";
import { recorder, mkSpan, mkProc, ROOT_CONTEXT } from "./lib/proc.js";
const FULL = ["langfuse.observation.input", "langfuse.trace.input", "langfuse.observation.output", "langfuse.trace.output", "langfuse.observation.metadata", "langfuse.trace.metadata"];
const META = ["langfuse.observation.metadata.", "langfuse.trace.metadata."];
const FAIL = "<fully masked due to failed mask function>";
const run = async ($, attributes, o) => {
  const ex = recorder(), proc = mkProc(ex, o);
  proc.onEnd(mkSpan({ attributes }));
  await proc.forceFlush();
  $.assert("exported once", ex.spans.length === 1);
  return ex.spans[0].attributes;
};
export const units = {
  masked: async ($, T) => {
    const f = $.in("field", T.lit(...FULL)), v = $.in("value", T.any), other = $.in("other", T.any), isAsync = $.in("async", T.bool);
    const calls = [];
    const mask = isAsync ? async ({ data }) => { await Promise.resolve(); calls.push(data); return { masked: data }; } : ({ data }) => { calls.push(data); return { masked: data }; };
    const a = await run($, { [f]: v, "langfuse.observation.type": other }, { mask });
    $.same("mask called exactly once with the original value", calls, [v]);
    $.same("the mask's result replaces the value", a[f], { masked: v });
    $.same("other attributes unchanged", a["langfuse.observation.type"], other);
    $.assert("no attribute added", Object.keys(a).length === 2);
  },
  maskedMetadataKeys: async ($, T) => {
    const p = $.in("prefix", T.lit(...META)), k = $.in("key", T.str), v = $.in("value", T.any), isAsync = $.in("async", T.bool);
    const mask = isAsync ? async () => "***" : () => "***";
    const a = await run($, { [p + k]: v, "user.id": "u" }, { mask });
    $.assert("every metadata entry is masked", a[p + k] === "***");
    $.assert("other attributes unchanged", a["user.id"] === "u");
  },
  failing: async ($, T) => {
    const f = $.in("field", T.lit(...FULL, "langfuse.observation.metadata.k", "langfuse.trace.metadata.k")), v = $.in("value", T.any), isAsync = $.in("async", T.bool);
    const mask = isAsync ? async () => { await Promise.resolve(); throw new Error("x"); } : () => { throw { odd: 1 }; };
    const a = await run($, { [f]: v }, { mask });
    $.assert("a failing mask hides the value completely", a[f] === FAIL);
  },
  anyThrown: async ($, T) => {
    const v = $.in("value", T.str), f = $.in("field", T.lit(...FULL, "langfuse.trace.metadata.k"));
    for (const err of oddValues()) for (const sync of [true, false]) {
      const a = await run($, { [f]: v }, { mask: sync ? () => { throw err; } : () => Promise.reject(err) });
      $.assert("whatever the mask throws, the value is hidden", a[f] === FAIL);
    }
  },
  partialFailure: async ($, T) => {
    const i = $.in("i", T.any), o = $.in("o", T.any), failIn = $.in("failInput", T.bool), failOut = $.in("failOutput", T.bool);
    let n = 0;
    const mask = ({ data }) => { n++; if (n === 1 ? failIn : failOut) throw new Error("x"); return "m"; };
    const a = await run($, { "langfuse.observation.input": i, "langfuse.observation.output": o }, { mask });
    $.assert("one call per value", n === 2);
    $.assert("never the original input", a["langfuse.observation.input"] === "m" || a["langfuse.observation.input"] === FAIL);
    $.assert("never the original output", a["langfuse.observation.output"] === "m" || a["langfuse.observation.output"] === FAIL);
    $.assert("failures are independent", (a["langfuse.observation.input"] === FAIL) !== (a["langfuse.observation.output"] === FAIL) || failIn === failOut);
  },
  allAtOnce: async ($, T) => {
    const v = $.in("v", T.str), attrs = {};
    for (const f of FULL) attrs[f] = f + v;
    for (const f of META) { attrs[f + "a"] = f + v; attrs[f + "b"] = v; }
    const a = await run($, attrs, { mask: () => 7 });
    for (const f of FULL) $.assert(f + " masked", a[f] === 7);
    for (const f of META) $.assert(f + "* masked", a[f + "a"] === 7 && a[f + "b"] === 7);
  },
  everySpan: async ($, T) => {
    const name = $.in("name", T.str), scope = $.in("scope", T.str), type = $.in("type", T.str), level = $.in("level", T.str), traceId = $.in("traceId", T.str), parentId = $.in("parentId", T.str), v = $.in("value", T.str), remote = $.in("remote", T.bool), started = $.in("started", T.bool), root = $.in("root", T.bool);
    for (const f of [...FULL, META[0] + "k", META[1] + "k"]) {
      const ex = recorder(), proc = mkProc(ex, { mask: ({ data }) => "m" + data, shouldExportSpan: () => true });
      const a = { [f]: v, "langfuse.observation.type": type, "langfuse.observation.level": level };
      const s = mkSpan({ name, scope, traceId, parent: root ? undefined : { traceId, spanId: parentId, traceFlags: 1, isRemote: remote }, attributes: a });
      if (started) proc.onStart(s, ROOT_CONTEXT);
      proc.onEnd(s);
      await proc.forceFlush();
      $.assert("whatever the span, " + f + " is masked", ex.spans.length === 1 && ex.seen[0][f] === "m" + v);
      $.assert("and nothing else", ex.seen[0]["langfuse.observation.type"] === type && ex.seen[0]["langfuse.observation.level"] === level);
    }
  },
  noMask: async ($, T) => {
    const f = $.in("field", T.lit(...FULL, "langfuse.observation.metadata.k")), v = $.in("value", T.any);
    const a = await run($, { [f]: v }, {});
    $.same("without a mask values are exported unchanged", a, { [f]: v });
  },
  order: async ($, T) => {
    const v = $.in("v", T.any), ex = recorder(), gate = $.deferred();
    const proc = mkProc(ex, { mask: async () => { await gate.promise; return "m"; } });
    proc.onEnd(mkSpan({ attributes: { "langfuse.observation.input": v } }));
    await $.drain();
    $.assert("nothing is exported while the mask is pending", ex.spans.length === 0);
    gate.resolve();
    await proc.forceFlush();
    $.assert("exported only with the masked value", ex.spans.length === 1 && ex.seen[0]["langfuse.observation.input"] === "m");
  },
};
