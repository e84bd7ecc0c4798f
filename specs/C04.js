/*META {"trusted":["@opentelemetry/api 1.9 (interpreted, not modelled)","harness tracer provider and span (specs/lib/otel.js)"]} */
import { startObservation, updateActiveObservation, setActiveTraceIO, setActiveTraceAsPublic, createObservationAttributes, createTraceAttributes } from "@langfuse/tracing";
import { setupOtel, context, trace } from "./lib/otel.js";
const ser = (x) => { if (typeof x === "string") return x; if (x === undefined || x === null) return undefined; try { return JSON.stringify(x); } catch { return "<failed to serialize>"; } };
const P = "langfuse.observation.";
const TYPES = ["span", "generation", "event", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"];
// attribute name -> [span key, serialised?]
const FIELDS = { input: [P + "input", 1], output: [P + "output", 1], level: [P + "level", 0], statusMessage: [P + "status_message", 0], version: ["langfuse.version", 0], environment: ["langfuse.environment", 0], completionStartTime: [P + "completion_start_time", 1], model: [P + "model.name", 0], modelParameters: [P + "model.parameters", 1], usageDetails: [P + "usage_details", 1], costDetails: [P + "cost_details", 1] };
const attrsT = (T) => T.obj({ input: T.any, output: T.any, level: T.opt(T.str), statusMessage: T.opt(T.str), version: T.opt(T.str), environment: T.opt(T.str), completionStartTime: T.any, model: T.opt(T.str), modelParameters: T.any, usageDetails: T.any, costDetails: T.any });
function checkFields($, got, a, prev) {
  for (const [f, [key, s]] of Object.entries(FIELDS)) {
    const exp = s ? ser(a[f]) : a[f] === null ? undefined : a[f];
    $.assert(f + " mapped exactly", got[key] === (exp === undefined ? prev?.[key] : exp));
  }
}
export const units = {
  creation: ($, T) => {
    const provider = setupOtel();
    const a = $.in("attributes", attrsT(T));
    const type = $.in("type", T.lit(...TYPES));
    const name = $.in("name", T.str);
    const o = startObservation(name, a, { asType: type });
    const sp = provider.spans[0];
    $.assert("exactly one span", provider.spans.length === 1);
    $.assert("name", sp.name === name);
    $.assert("type attribute", sp.attributes[P + "type"] === type);
    $.assert("object type", o.type === type);
    $.assert("ids come from the span", o.id === sp.ctx.spanId && o.traceId === sp.ctx.traceId);
    checkFields($, sp.attributes, a);
    $.assert("only events end on creation", sp.endCount === (type === "event" ? 1 : 0));
    $.assert("attributes are written before the end", sp.writesAfterEnd === 0);
  },
  defaultType: ($, T) => {
    const provider = setupOtel();
    startObservation($.in("name", T.str));
    $.same("a plain observation is a span without other attributes", provider.spans[0].attributes, { "langfuse.observation.type": "span" });
  },
  metadataObject: ($, T) => {
    const m = $.in("metadata", T.dict(T.any)), k = $.in("probe", T.str);
    const got = createObservationAttributes("span", { metadata: m });
    const v = Object.prototype.hasOwnProperty.call(m, k) ? m[k] : undefined;
    const e = ser(v);
    if (e !== undefined) { $.cover("present"); $.assert("entry flattened under its own key", got[P + "metadata." + k] === e); }
    else { $.cover("absent"); $.assert("absent or null entries produce nothing", got[P + "metadata." + k] === undefined); }
    $.assert("object metadata is never written as a whole", got[P + "metadata"] === undefined);
    $.expectCovers("present", "absent");
  },
  metadataScalar: ($, T) => {
    const m = $.in("metadata", T.or(T.str, T.num, T.bool, T.arr(T.any), T.undef, T.nul));
    const got = createObservationAttributes("span", { metadata: m });
    const e = ser(m);
    if (e !== undefined) $.assert("non-object metadata serialised under the base key", got[P + "metadata"] === e);
    else $.assert("nothing written", got[P + "metadata"] === undefined);
  },
  promptLink: ($, T) => {
    const prompt = $.in("prompt", T.nullable(T.obj({ name: T.str, version: T.int, isFallback: T.bool })));
    const got = createObservationAttributes("generation", { prompt });
    if (prompt && !prompt.isFallback) {
      $.cover("linked");
      $.assert("name linked", got[P + "prompt.name"] === prompt.name);
      $.assert("version linked", got[P + "prompt.version"] === prompt.version);
    } else {
      $.cover("unlinked");
      $.assert("never linked for fallback prompts", got[P + "prompt.name"] === undefined && got[P + "prompt.version"] === undefined);
    }
    $.expectCovers("linked", "unlinked");
  },
  update: ($, T) => {
    const provider = setupOtel();
    const type = $.in("type", T.lit("span", "generation", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"));
    const a = $.in("first", attrsT(T)), b = $.in("second", attrsT(T));
    const o = startObservation("x", a, { asType: type });
    const sp = provider.spans[0];
    const prev = { ...sp.attributes };
    const r = o.update(b);
    $.assert("update is chainable", r === o);
    $.assert("type kept", sp.attributes[P + "type"] === type);
    checkFields($, sp.attributes, b, prev);
    $.assert("not ended by update", sp.endCount === 0);
  },
  unknownTypeFallsBack: ($, T) => {
    const provider = setupOtel();
    const type = $.in("type", T.str);
    $.assume(!TYPES.includes(type));
    const o = startObservation("x", {}, { asType: type });
    $.assert("unknown types become spans", o.type === "span" && provider.spans[0].attributes[P + "type"] === "span");
  },
  traceIO: ($, T) => {
    const provider = setupOtel();
    const input = $.in("input", T.any), output = $.in("output", T.any);
    const o = startObservation("x");
    const before = { ...provider.spans[0].attributes };
    $.assert("chainable", o.setTraceIO({ input, output }) === o);
    const at = provider.spans[0].attributes;
    $.assert("trace input", at["langfuse.trace.input"] === ser(input));
    $.assert("trace output", at["langfuse.trace.output"] === ser(output));
    $.assert("observation fields untouched", at[P + "input"] === before[P + "input"] && at[P + "type"] === "span");
    $.same("pure function agrees", createTraceAttributes({ input, output }), { "langfuse.trace.input": ser(input), "langfuse.trace.output": ser(output) });
  },
  activeHelpers: ($, T) => {
    const provider = setupOtel();
    const a = $.in("attributes", attrsT(T));
    const type = $.in("type", T.opt(T.lit("span", "generation", "agent", "tool", "chain", "embedding", "evaluator", "guardrail", "retriever")));
    const tracer = trace.getTracer("app");
    const outer = tracer.startSpan("outer"), active = tracer.startSpan("active");
    active.attributes[P + "type"] = "agent";
    const prev = { ...active.attributes };
    context.with(trace.setSpan(context.active(), active), () => {
      updateActiveObservation(a, type === undefined ? undefined : { asType: type });
      setActiveTraceIO({ input: a.input });
      setActiveTraceAsPublic();
    });
    $.assert("type changes only on request", active.attributes[P + "type"] === (type ?? undefined) || (type === undefined && (active.attributes[P + "type"] === undefined || active.attributes[P + "type"] === "agent")));
    checkFields($, active.attributes, a, prev);
    $.assert("trace input set on the active span", active.attributes["langfuse.trace.input"] === ser(a.input));
    $.assert("public flag", active.attributes["langfuse.trace.public"] === true);
    $.same("other spans untouched", outer.attributes, {});
  },
  noActiveSpan: ($, T) => {
    const provider = setupOtel();
    const a = $.in("attributes", attrsT(T));
    updateActiveObservation(a); setActiveTraceIO({ input: a.input }); setActiveTraceAsPublic();
    $.assert("helpers without an active span do nothing", provider.spans.length === 0);
  },
  publicTrace: ($, T) => {
    const provider = setupOtel();
    const type = $.in("type", T.lit(...TYPES.filter((x) => x !== "event")));
    const o = startObservation("x", {}, { asType: type });
    $.assert("chainable", o.setTraceAsPublic() === o);
    $.same("the trace is marked public, nothing else", provider.spans[0].attributes, { [P + "type"]: type, "langfuse.trace.public": true });
  },
  endTime: ($, T) => {
    const provider = setupOtel();
    const type = $.in("type", T.lit(...TYPES.filter((x) => x !== "event"))), end = $.in("end", T.opt(T.range(0, 2000000000000))), start = new Date(1700000000000);
    const o = startObservation("x", {}, { asType: type, startTime: start });
    o.end(end);
    const sp = provider.spans[0];
    $.assert("started and ended at the given times", sp.endCount === 1 && sp.ends[0] === end && sp.options.startTime === start);
    startObservation("e", {}, { asType: "event", startTime: start });
    $.assert("an event starts and ends at its time", provider.spans[1].options.startTime === start && provider.spans[1].ends[0] === start && provider.spans[1].endCount === 1);
  },
  childParent: ($, T) => {
    const provider = setupOtel();
    const t1 = $.in("t1", T.lit("span", "generation", "agent", "tool")), t2 = $.in("t2", T.lit(...TYPES));
    const a = startObservation("a", {}, { asType: t1 });
    const b = a.startObservation("b", {}, { asType: t2 });
    const c = startObservation("c");
    $.assert("child shares the trace", b.traceId === a.traceId);
    $.assert("child's parent is the observation", provider.spans[1].parentCtx.spanId === a.id);
    $.assert("unrelated observation has no parent", provider.spans[2].parentCtx === undefined);
    $.assert("distinct traces", c.traceId !== a.traceId);
  },
};
