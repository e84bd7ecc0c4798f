/*META {"trusted":["@opentelemetry/api 1.9 (interpreted, not modelled)","harness context manager and span (specs/lib/otel.js)"],"assumptions":["baggage transport between processes delivers entries unchanged"]} */
import { propagateAttributes, getPropagatedAttributesFromContext, getLangfuseTraceIdFromBaggage, setLangfuseTraceIdInBaggage } from "@repo/packages/core/src/propagation.ts";
import { setupOtel, context, trace, propagation, ROOT_CONTEXT } from "./lib/otel.js";

// attributes as seen locally and as seen by a process that received only the baggage
function both(params) {
  setupOtel();
  const out = {};
  propagateAttributes({ ...params, asBaggage: true }, () => {
    const ctx = context.active();
    out.local = getPropagatedAttributesFromContext(ctx);
    const b = propagation.getBaggage(ctx);
    out.bag = b;
    out.remote = getPropagatedAttributesFromContext(b ? propagation.setBaggage(ROOT_CONTEXT, b) : ROOT_CONTEXT);
  });
  return out;
}
const valid = (T) => T.strOf({ nonEmpty: true, maxLen: 200 });
const scalar = (key, spanKey) => ($, T) => {
  const v = $.in("value", valid(T));
  const p = {}; p[key] = v;
  const r = both(p);
  $.assert("seen by local child spans", r.local[spanKey] === v);
  $.assert("seen unchanged by remote spans", r.remote[spanKey] === v);
  $.same("nothing else is added locally", Object.keys(r.local), [spanKey]);
  $.same("nothing else is added remotely", Object.keys(r.remote), [spanKey]);
};
const EXP = { experimentId: "langfuse.experiment.id", experimentName: "langfuse.experiment.name", experimentMetadata: "langfuse.experiment.metadata", experimentDatasetId: "langfuse.experiment.dataset.id", experimentItemId: "langfuse.experiment.item.id", experimentItemMetadata: "langfuse.experiment.item.metadata", experimentItemRootObservationId: "langfuse.experiment.item.root_observation_id" };
export const units = {
  userId: { run: scalar("userId", "user.id") },
  sessionId: { run: scalar("sessionId", "session.id") },
  version: { run: scalar("version", "langfuse.version") },
  traceName: { run: scalar("traceName", "langfuse.trace.name") },
  environment: ($, T) => {
    const v = $.in("value", T.strOf({ nonEmpty: true, maxLen: 40, re: /^[a-z0-9_-]+$/, pool: ["prod", "staging", "a", "sdk-experiment", "dev_1", "0"] }));
    $.assume(!v.startsWith("langfuse"));
    const r = both({ environment: v });
    $.assert("local", r.local["langfuse.environment"] === v);
    $.assert("remote", r.remote["langfuse.environment"] === v);
  },
  untrustedEnvironmentBaggage: ($, T) => {
    setupOtel();
    const v = $.in("value", T.str);
    const b = propagation.createBaggage().setEntry("langfuse_environment", { value: v });
    const attrs = getPropagatedAttributesFromContext(propagation.setBaggage(ROOT_CONTEXT, b));
    const ok = v.length <= 40 && /^[a-z0-9_-]+$/.test(v) && !v.startsWith("langfuse");
    if (ok) $.assert("valid remote environment accepted", attrs["langfuse.environment"] === v);
    else $.same("invalid remote environment ignored", attrs, {});
    $.cover("x");
  },
  prompt: ($, T) => {
    const name = $.in("name", valid(T));
    const version = $.in("version", T.range(0, 1000000));
    const r = both({ prompt: { name, version } });
    $.assert("local name", r.local["langfuse.observation.prompt.name"] === name);
    $.assert("local version", r.local["langfuse.observation.prompt.version"] === version);
    $.assert("remote name", r.remote["langfuse.observation.prompt.name"] === name);
    $.assert("remote version is the same integer", r.remote["langfuse.observation.prompt.version"] === version);
  },
  tags: ($, T) => {
    const tags = $.in("tags", T.arr(T.strOf({ maxLen: 200 }), { min: 1 }));
    $.each(tags, (x) => $.assume(true));
    const clean = tags.every((x) => !x.includes(","));
    const r = both({ tags });
    $.same("local child spans get every tag in order", r.local["langfuse.trace.tags"], tags);
    if (clean) { $.cover("clean"); $.same("remote spans get every tag in order", r.remote["langfuse.trace.tags"], tags); }
    $.expectCovers("clean");
  },
  metadata: ($, T) => {
    const k1 = $.in("k1", T.str), k2 = $.in("k2", T.str);
    const v1 = $.in("v1", T.strOf({ maxLen: 200 })), v2 = $.in("v2", T.strOf({ maxLen: 200 }));
    $.assume(k1 !== k2);
    const m = {}; m[k1] = v1; m[k2] = v2;
    const r = both({ metadata: m });
    $.assert("local entry 1", r.local["langfuse.trace.metadata." + k1] === v1);
    $.assert("local entry 2", r.local["langfuse.trace.metadata." + k2] === v2);
    $.assert("remote entry 1", r.remote["langfuse.trace.metadata." + k1] === v1);
    $.assert("remote entry 2", r.remote["langfuse.trace.metadata." + k2] === v2);
    $.assert("same number of attributes", Object.keys(r.remote).length === Object.keys(r.local).length);
  },
  experiment: ($, T) => {
    const e = {}; const keys = Object.keys(EXP);
    for (const k of keys) e[k] = $.in(k, T.strOf({ nonEmpty: true }));
    const r = both({ _internalExperiment: e });
    for (const k of keys) {
      $.assert("local " + k, r.local[EXP[k]] === e[k]);
      $.assert("remote " + k, r.remote[EXP[k]] === e[k]);
    }
    $.assert("experiment environment local", r.local["langfuse.environment"] === "sdk-experiment");
    $.assert("experiment environment remote", r.remote["langfuse.environment"] === "sdk-experiment");
  },
  contextWinsOverBaggage: ($, T) => {
    setupOtel();
    const mine = $.in("mine", valid(T)), theirs = $.in("theirs", valid(T)), sess = $.in("sess", valid(T));
    const b = propagation.createBaggage().setEntry("langfuse_user_id", { value: theirs }).setEntry("langfuse_session_id", { value: sess });
    context.with(propagation.setBaggage(ROOT_CONTEXT, b), () => {
      propagateAttributes({ userId: mine }, () => {
        const a = getPropagatedAttributesFromContext(context.active());
        $.assert("local value overrides incoming baggage", a["user.id"] === mine);
        $.assert("other incoming values are kept", a["session.id"] === sess);
      });
    });
  },
  foreignBaggage: ($, T) => {
    setupOtel();
    const k = $.in("key", T.str), v = $.in("value", T.str), u = $.in("user", valid(T));
    $.assume(!k.startsWith("langfuse_"));
    const b0 = propagation.createBaggage().setEntry(k, { value: v });
    context.with(propagation.setBaggage(ROOT_CONTEXT, b0), () => {
      $.same("foreign baggage produces no attribute", getPropagatedAttributesFromContext(context.active()), {});
      propagateAttributes({ userId: u, asBaggage: true }, () => {
        const b = propagation.getBaggage(context.active());
        $.assert("foreign entry preserved", b.getEntry(k).value === v);
        $.assert("langfuse entry added", b.getEntry("langfuse_user_id").value === u);
      });
    });
  },
  traceIdBaggage: ($, T) => {
    setupOtel();
    const id = $.in("traceId", T.strOf({ nonEmpty: true, re: /^[0-9a-fA-F]+$/, pool: ["0af7651916cd43dd8448eb211c80319c", "ABCDEF0123456789abcdef0123456789", "a"] })), k = $.in("key", T.str), v = $.in("value", T.str);
    $.assume(k !== "langfuse_trace_id" && !k.startsWith("langfuse_"));
    const ctx0 = propagation.setBaggage(ROOT_CONTEXT, propagation.createBaggage().setEntry(k, { value: v }));
    const ctx = setLangfuseTraceIdInBaggage(ctx0, id);
    $.assert("read back normalised", getLangfuseTraceIdFromBaggage(ctx) === id.toLowerCase());
    $.assert("other entries kept", propagation.getBaggage(ctx).getEntry(k).value === v);
    $.same("trace id is never an attribute", getPropagatedAttributesFromContext(ctx), {});
    $.assert("original context untouched", getLangfuseTraceIdFromBaggage(ctx0) === undefined);
  },
};
