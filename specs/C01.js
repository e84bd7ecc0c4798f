/*META {"trusted":["@opentelemetry/api 1.9 (its shipped esnext build is interpreted too, not modelled)","harness context manager and span (specs/lib/otel.js)"]} */
import { propagateAttributes, getPropagatedAttributesFromContext } from "@repo/packages/core/src/propagation.ts";
import { setupOtel, context, trace, propagation } from "./lib/otel.js";

// What a caller can observe inside the callback: attributes for child spans, the active span's own attributes, the baggage.
function observe(params) {
  const provider = setupOtel();
  const tracer = trace.getTracer("app");
  const span = tracer.startSpan("root");
  const out = { calls: 0 };
  context.with(trace.setSpan(context.active(), span), () => {
    propagateAttributes(params, () => {
      out.calls++;
      out.attrs = getPropagatedAttributesFromContext(context.active());
      const b = propagation.getBaggage(context.active());
      out.baggage = b ? b.getAllEntries() : [];
      out.bag = b;
    });
  });
  out.span = span.attributes;
  return out;
}
const ok200 = (v) => typeof v === "string" && v.length > 0 && v.length <= 200;
const scalar = (key, spanKey, bagKey) => ($, T) => {
  const v = $.in("value", T.any);
  const asBaggage = $.in("asBaggage", T.opt(T.bool));
  const params = { asBaggage };
  params[key] = v;
  const r = observe(params);
  $.assert("callback runs exactly once", r.calls === 1);
  if (ok200(v)) {
    $.cover("accepted");
    $.assert("accepted value reaches child spans", r.attrs[spanKey] === v);
    $.assert("accepted value set on active span", r.span[spanKey] === v);
    if (asBaggage) { $.assert("accepted value is in baggage", r.bag.getEntry(bagKey).value === v); $.assert("nothing else in baggage", r.baggage.length === 1); }
    else $.assert("no baggage without opt-in", r.baggage.length === 0);
  } else {
    $.cover("rejected");
    $.assert("rejected value never reaches child spans", r.attrs[spanKey] === undefined);
    $.assert("rejected value never set on active span", r.span[spanKey] === undefined);
    $.assert("rejected value never in baggage", r.baggage.length === 0);
  }
  $.expectCovers("accepted", "rejected");
};
export const units = {
  userId: { run: scalar("userId", "user.id", "langfuse_user_id") },
  sessionId: { run: scalar("sessionId", "session.id", "langfuse_session_id") },
  version: { run: scalar("version", "langfuse.version", "langfuse_version") },
  traceName: { run: scalar("traceName", "langfuse.trace.name", "langfuse_trace_name") },
  environment: ($, T) => {
    const v = $.in("value", T.any);
    const asBaggage = $.in("asBaggage", T.opt(T.bool));
    const r = observe({ environment: v, asBaggage });
    const valid = typeof v === "string" && v.length <= 40 && /^[a-z0-9_-]+$/.test(v) && !v.startsWith("langfuse");
    if (valid) {
      $.cover("accepted");
      $.assert("valid environment reaches child spans", r.attrs["langfuse.environment"] === v);
      $.assert("valid environment set on active span", r.span["langfuse.environment"] === v);
      $.assert("baggage iff opted in", (r.baggage.length === 1) === (asBaggage === true));
    } else {
      $.cover("rejected");
      $.assert("invalid environment never reaches child spans", r.attrs["langfuse.environment"] === undefined);
      $.assert("invalid environment never set on active span", r.span["langfuse.environment"] === undefined);
      $.assert("invalid environment never in baggage", r.baggage.length === 0);
    }
    $.expectCovers("accepted", "rejected");
  },
  tags: ($, T) => {
    const tags = $.in("tags", T.arr(T.any));
    const asBaggage = $.in("asBaggage", T.opt(T.bool));
    const r = observe({ tags, asBaggage });
    const expected = tags.filter((x) => typeof x === "string" && x.length <= 200);
    const got = r.attrs["langfuse.trace.tags"];
    if (expected.length > 0) {
      $.cover("some valid");
      $.same("exactly the valid tags, in order, reach child spans", asBaggage ? got : got, expected);
      $.same("exactly the valid tags are set on the active span", r.span["langfuse.trace.tags"], expected);
    } else {
      $.cover("none valid");
      $.assert("no tags attribute", got === undefined);
      $.assert("no tags on active span", r.span["langfuse.trace.tags"] === undefined);
      $.assert("no tags baggage", r.baggage.length === 0);
    }
    if (!asBaggage) $.assert("no baggage without opt-in", r.baggage.length === 0);
    $.expectCovers("some valid", "none valid");
  },
  metadata: ($, T) => {
    const metadata = $.in("metadata", T.dict(T.any));
    const k = $.in("probe", T.str);
    const r = observe({ metadata });
    const v = Object.prototype.hasOwnProperty.call(metadata, k) ? metadata[k] : undefined;
    const valid = typeof v === "string" && v.length <= 200;
    const got = r.attrs["langfuse.trace.metadata." + k];
    const onSpan = r.span["langfuse.trace.metadata." + k];
    if (valid) {
      $.cover("valid entry");
      $.assert("valid entry reaches child spans", got === v);
      $.assert("valid entry set on active span", onSpan === v);
    } else {
      $.cover("invalid entry");
      $.assert("invalid entry is dropped alone", got === undefined);
      $.assert("invalid entry never on active span", onSpan === undefined);
    }
    $.assert("no baggage without opt-in", r.baggage.length === 0);
    $.expectCovers("valid entry", "invalid entry");
  },
  prompt: ($, T) => {
    const prompt = $.in("prompt", T.obj({ name: T.any, version: T.any, isFallback: T.opt(T.bool) }));
    const r = observe({ prompt });
    const version = typeof prompt.version === "string" && /^[0-9]+$/.test(prompt.version) ? Number(prompt.version) : prompt.version;
    const valid = !prompt.isFallback && typeof prompt.name === "string" && prompt.name.length > 0 && typeof version === "number" && Number.isInteger(version);
    const n = r.attrs["langfuse.observation.prompt.name"], ver = r.attrs["langfuse.observation.prompt.version"];
    if (valid) {
      $.cover("linked");
      $.assert("prompt name propagated", n === prompt.name);
      $.assert("prompt version propagated as an integer", ver === version);
      $.assert("on the active span as well", r.span["langfuse.observation.prompt.name"] === prompt.name && r.span["langfuse.observation.prompt.version"] === version);
    } else {
      $.cover("not linked");
      $.assert("no partial prompt link", n === undefined && ver === undefined);
      $.assert("no partial prompt link on the active span", r.span["langfuse.observation.prompt.name"] === undefined && r.span["langfuse.observation.prompt.version"] === undefined);
    }
    $.expectCovers("linked", "not linked");
  },
  promptVersionText: ($, T) => {
    const name = $.in("name", T.strOf({ nonEmpty: true, maxLen: 200 }));
    for (const version of ["0", "7", "12", "007", "1e3", "0x10", "12 ", " 12", "1.0", "1.5", "-3", "+3", "", " ", "1_0", "12abc", "NaN", "Infinity"]) {
      const r = observe({ prompt: { name, version } }), ok = version === "0" || version === "7" || version === "12" || version === "007";
      for (const a of [r.attrs, r.span]) {
        $.assert("version " + JSON.stringify(version) + " is linked only if it is an integer", a["langfuse.observation.prompt.version"] === (ok ? Number(version) : undefined));
        $.assert("no partial link for version " + JSON.stringify(version), a["langfuse.observation.prompt.name"] === (ok ? name : undefined));
      }
    }
  },
};
