/*META {"trusted":["OpenTelemetry SDK span processors and exporter (models/opentelemetry__*.js)","@opentelemetry/api 1.9 (interpreted, not modelled)"]} */
import { LANGFUSE_SDK_VERSION } from "@repo/packages/core/src/constants.ts";
import { recorder, mkSpan, mkProc, LangfuseSpanProcessor, ROOT_CONTEXT, context, trace, propagation } from "./lib/proc.js";
import { setupOtel } from "./lib/otel.js";
import { created } from "@opentelemetry/exporter-trace-otlp-http";
import { propagateAttributes, startActiveObservation, observe } from "@langfuse/tracing";
import { getPropagatedAttributesFromContext } from "@langfuse/core";
const ROOT = "langfuse.internal.is_app_root", ENV = "langfuse.environment", REL = "langfuse.release", PN = "langfuse.observation.prompt.name", PV = "langfuse.observation.prompt.version";
const claim = (id) => propagation.setBaggage(ROOT_CONTEXT, propagation.createBaggage({ langfuse_trace_id: { value: id } }));
const ENVKEYS = ["LANGFUSE_PUBLIC_KEY", "LANGFUSE_SECRET_KEY", "LANGFUSE_BASE_URL", "LANGFUSE_BASEURL", "LANGFUSE_RELEASE", "LANGFUSE_TRACING_ENVIRONMENT"];
const clearEnv = () => { for (const k of ENVKEYS) delete process.env[k]; };
export const units = {
  envRelease: ($, T) => {
    clearEnv();
    const environment = $.in("environment", T.opt(T.str)), release = $.in("release", T.opt(T.str)), k = $.in("key", T.str), v = $.in("value", T.strOf({ nonEmpty: true }));
    const ex = recorder(), proc = mkProc(ex, { environment, release });
    $.assume(k !== ENV && k !== REL && k !== ROOT);
    const span = mkSpan({ attributes: { [k]: v } });
    proc.onStart(span, ROOT_CONTEXT);
    $.assert("configured environment on every span", span.attributes[ENV] === environment);
    $.assert("configured release on every span", span.attributes[REL] === release);
    $.assert("other attributes untouched", span.attributes[k] === v);
  },
  fromEnvironment: ($, T) => {
    clearEnv();
    const pe = $.in("paramEnv", T.opt(T.str)), pr = $.in("paramRel", T.opt(T.str)), ve = $.in("varEnv", T.opt(T.strOf({ nonEmpty: true }))), vr = $.in("varRel", T.opt(T.strOf({ nonEmpty: true })));
    if (ve !== undefined) process.env.LANGFUSE_TRACING_ENVIRONMENT = ve;
    if (vr !== undefined) process.env.LANGFUSE_RELEASE = vr;
    const span = mkSpan({});
    mkProc(recorder(), { environment: pe, release: pr }).onStart(span, ROOT_CONTEXT);
    clearEnv();
    $.assert("explicit environment wins over the variable", span.attributes[ENV] === (pe ?? ve));
    $.assert("explicit release wins over the variable", span.attributes[REL] === (pr ?? vr));
  },
  credentials: ($, T) => {
    clearEnv();
    const s = T.opt(T.strOf({ nonEmpty: true }));
    const pk = $.in("pk", s), sk = $.in("sk", s), url = $.in("url", s), vpk = $.in("varPk", s), vsk = $.in("varSk", s), vurl = $.in("varUrl", s), vurl2 = $.in("varUrlLegacy", s), hk = $.in("header", T.str), hv = $.in("headerValue", T.str), timeout = $.in("timeout", T.range(1, 100));
    if (vpk !== undefined) process.env.LANGFUSE_PUBLIC_KEY = vpk;
    if (vsk !== undefined) process.env.LANGFUSE_SECRET_KEY = vsk;
    if (vurl !== undefined) process.env.LANGFUSE_BASE_URL = vurl;
    if (vurl2 !== undefined) process.env.LANGFUSE_BASEURL = vurl2;
    created.length = 0;
    new LangfuseSpanProcessor({ publicKey: pk, secretKey: sk, baseUrl: url, timeout, additionalHeaders: { [hk]: hv } });
    clearEnv();
    const c = created[0].config, b = url ?? vurl ?? vurl2 ?? "https://cloud.langfuse.com";
    $.assert("one exporter at the ingestion url", created.length === 1 && c.url === `${b}/api/public/otel/v1/traces`);
    $.assert("additional header sent", c.headers[hk] === hv);
    if (hk !== "Authorization") $.assert("basic authorization from the keys", c.headers.Authorization === "Basic " + Buffer.from(`${pk ?? vpk}:${sk ?? vsk}`, "utf8").toString("base64"));
    if (hk !== "x-langfuse-public-key") $.assert("public key header", c.headers["x-langfuse-public-key"] === (pk ?? vpk ?? "<missing>"));
    if (hk !== "x-langfuse-sdk-name" && hk !== "x-langfuse-sdk-version") $.assert("the SDK is identified", c.headers["x-langfuse-sdk-name"] === "javascript" && c.headers["x-langfuse-sdk-version"] === LANGFUSE_SDK_VERSION);
    $.assert("timeout in milliseconds", c.timeoutMillis === timeout * 1000);
  },
  timeouts: ($, T) => {
    clearEnv();
    const t = $.in("t", T.range(1, 1000));
    for (const given of [undefined, t]) for (const v of [undefined, "7", "0.5"]) {
      if (v !== undefined) process.env.LANGFUSE_TIMEOUT = v;
      created.length = 0;
      new LangfuseSpanProcessor({ publicKey: "pk", secretKey: "sk", timeout: given });
      delete process.env.LANGFUSE_TIMEOUT;
      $.assert("timeout option over variable over five seconds", created[0].config.timeoutMillis === (given ?? (v === undefined ? 5 : Number(v))) * 1000);
    }
  },
  propagatedWins: ($, T) => {
    clearEnv(); setupOtel();
    const configured = $.in("configured", T.opt(T.strOf({ nonEmpty: true }))), environment = $.in("environment", T.strOf({ pool: ["prod", "dev_1", "x-y", "langfuse-x", "Bad"] })), userId = $.in("userId", T.strOf({ nonEmpty: true, maxLen: 200 }));
    let ctx; propagateAttributes({ environment, userId }, () => { ctx = context.active(); });
    const want = getPropagatedAttributesFromContext(ctx);
    const span = mkSpan({}), proc = mkProc(recorder(), { environment: configured });
    proc.onStart(span, ctx);
    $.assert("a propagated environment wins over the configured one", span.attributes[ENV] === (want[ENV] ?? configured));
    $.assert("only the propagated value", want[ENV] === undefined || want[ENV] === environment);
    let ctx2; propagateAttributes({ environment: "prod" }, () => { ctx2 = context.active(); });
    const span2 = mkSpan({}); proc.onStart(span2, ctx2);
    $.assert("valid environment", span2.attributes[ENV] === "prod");
    $.assert("propagated user", span.attributes["user.id"] === userId);
  },
  explicitPrompt: ($, T) => {
    clearEnv(); setupOtel();
    const own = $.in("own", T.opt(T.strOf({ nonEmpty: true }))), ownV = $.in("ownVersion", T.opt(T.range(0, 100))), name = $.in("name", T.strOf({ nonEmpty: true, maxLen: 200 })), version = $.in("version", T.range(1, 100));
    let ctx; propagateAttributes({ prompt: { name, version } }, () => { ctx = context.active(); });
    const a = {}; if (own !== undefined) { a[PN] = own; if (ownV !== undefined) a[PV] = ownV; }
    const span = mkSpan({ attributes: a });
    mkProc(recorder()).onStart(span, ctx);
    if (own !== undefined) $.assert("an explicit prompt wins entirely", span.attributes[PN] === own && span.attributes[PV] === ownV);
    else $.assert("otherwise the propagated prompt", span.attributes[PN] === name && span.attributes[PV] === version);
  },
  appRoot: ($, T) => {
    clearEnv(); setupOtel();
    const hasParent = $.in("hasParent", T.lit("none", "started", "ended", "remote")), pv = $.in("parentVerdict", T.lit(true, false, "throw", 1)), cv = $.in("childVerdict", T.lit(true, false, "throw", 1)), cl = $.in("claim", T.lit("none", "same", "other")), isRemote = $.in("isRemote", T.opt(T.bool)), tid = $.in("traceId", T.strOf({ pool: ["abc1", "00ff"], re: /^[0-9a-f]+$/ })), other = $.in("otherId", T.strOf({ re: /^[0-9a-f]+$/, pool: ["12", "ee"] }));
    $.assume(tid !== other);
    const verdict = { p: pv, c: cv };
    const proc = mkProc(recorder(), { shouldExportSpan: ({ otelSpan }) => { const v = verdict[otelSpan.name]; if (v === "throw") throw new Error("x"); return v; } });
    const parent = mkSpan({ id: "pp", name: "p", traceId: tid });
    if (hasParent === "started" || hasParent === "ended") proc.onStart(parent, ROOT_CONTEXT);
    if (hasParent === "ended") proc.onEnd(parent);
    const ctx = cl === "none" ? ROOT_CONTEXT : claim(cl === "same" ? tid : other);
    const child = mkSpan({ id: "cc", name: "c", traceId: tid, parent: hasParent === "none" ? undefined : { traceId: tid, spanId: "pp", traceFlags: 1, ...(isRemote === undefined ? {} : { isRemote }) } });
    const r = proc.onStart(child, ctx);
    const root = cv === true && !(hasParent === "started" && pv === true) && cl !== "same";
    $.assert("marked as application root exactly when nothing exported lies above it", child.attributes[ROOT] === (root ? true : undefined));
    if (hasParent === "started") $.assert("the local root", parent.attributes[ROOT] === (pv === true ? true : undefined));
  },
  // what an active observation passes on to other processes keeps their spans of its trace from being roots
  claimPassedOn: async ($, T) => {
    clearEnv();
    const name = $.in("name", T.strOf({ nonEmpty: true }));
    for (const how of ["active", "observe", "activeAsync", "observeAsync"]) for (const type of ["span", "generation", "agent", "event"]) {
      setupOtel();
      let ctx, span;
      const look = () => { ctx = context.active(); span = trace.getSpan(ctx); };
      const f = how.endsWith("Async") ? async () => { await null; look(); } : look;
      await (how.startsWith("active") ? startActiveObservation(name, f, { asType: type }) : observe(f, { name, asType: type })());
      const { traceId, spanId } = span.spanContext(), bag = propagation.getBaggage(ctx);
      const received = bag ? propagation.setBaggage(ROOT_CONTEXT, bag) : ROOT_CONTEXT, proc = mkProc(recorder());
      const there = mkSpan({ id: "r1", traceId, parent: { traceId, spanId, traceFlags: 1, isRemote: true } }), other = mkSpan({ id: "r2", traceId: "another", parent: undefined });
      proc.onStart(there, received); proc.onStart(other, received);
      $.assert("no span of the trace in another process is a root", there.attributes[ROOT] === undefined);
      $.assert("but one of another trace is", other.attributes[ROOT] === true);
      $.assert("and the claim ends with the observation", propagation.getBaggage(context.active()) === undefined);
    }
  },
  chain: ($, T) => {
    clearEnv(); setupOtel();
    const keep = [$.in("a", T.bool), $.in("b", T.bool), $.in("c", T.bool), $.in("d", T.bool)];
    const proc = mkProc(recorder(), { shouldExportSpan: ({ otelSpan }) => keep[Number(otelSpan.name)] });
    const spans = [];
    for (let i = 0; i < 4; i++) { const s = mkSpan({ id: "n" + i, name: String(i), parent: i ? { traceId: "t1", spanId: "n" + (i - 1), traceFlags: 1 } : undefined }); proc.onStart(s, ROOT_CONTEXT); spans.push(s); }
    for (let i = 0; i < 4; i++) $.assert("each exported span below a non-exported parent is a root", (spans[i].attributes[ROOT] === true) === (keep[i] && !(i > 0 && keep[i - 1])));
  },
};
