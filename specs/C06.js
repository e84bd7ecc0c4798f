/*META {"trusted":["SHA-256 and the system random source (uninterpreted in the proof, real in the concrete run)"],"assumptions":["TextEncoder is functional"]} */
import { createTraceId, getActiveTraceId, getActiveSpanId, setLangfuseTracerProvider, getLangfuseTracerProvider, getLangfuseTracer, startObservation, startActiveObservation, observe } from "@langfuse/tracing";
import { setupOtel, HarnessProvider, context, trace } from "./lib/otel.js";
const HEX32 = /^[0-9a-f]{32}$/;
export const units = {
  seeded: async ($, T) => {
    const seed = $.in("seed", T.strOf({ nonEmpty: true }));
    const a = await createTraceId(seed), b = await createTraceId(seed);
    $.assert("same seed gives the same id", a === b);
    $.assert("32 lower-case hex digits", HEX32.test(a));
    const h = new Uint8Array(await crypto.subtle.digest("SHA-256", new TextEncoder().encode(seed)));
    const bytes = Array.from(h).slice(0, 16);
    $.assert("first 16 bytes of SHA-256", a === bytes.map((x) => x.toString(16).padStart(2, "0")).join(""));
  },
  unseeded: async ($, T) => {
    const seed = $.in("seed", T.or(T.undef, T.lit("")));
    const a = await createTraceId(seed);
    $.assert("32 lower-case hex digits", HEX32.test(a));
    if (!$.symbolic) $.assert("not constant", a !== (await createTraceId(seed)));
  },
  isolated: ($, T) => {
    const global = setupOtel(), mine = new HarnessProvider(), how = $.in("how", T.lit(0, 1, 2));
    const go = () => { if (how === 0) startObservation("x"); else if (how === 1) startActiveObservation("x", () => 1); else observe(() => 1, { name: "x" })(); };
    setLangfuseTracerProvider(mine);
    try {
      $.assert("getter returns it", getLangfuseTracerProvider() === mine);
      go();
      $.assert("spans go to the isolated provider only", mine.spans.length === 1 && global.spans.length === 0);
    } finally { setLangfuseTracerProvider(null); }
    go();
    $.assert("null restores the global provider", mine.spans.length === 1 && global.spans.length === 1);
    const s = global.scopes[0];
    $.assert("instrumentation scope", s.name === "langfuse-sdk" && typeof s.version === "string" && s.version !== "");
  },
  replaced: ($, T) => {
    setupOtel();
    const a = new HarnessProvider(), b = new HarnessProvider();
    try {
      setLangfuseTracerProvider(a); startObservation("1");
      setLangfuseTracerProvider(b); startObservation("2"); startObservation("3");
    } finally { setLangfuseTracerProvider(null); }
    $.assert("the most recent provider is used", a.spans.length === 1 && b.spans.length === 2);
  },
  active: ($, T) => {
    const provider = setupOtel();
    $.assert("none outside", getActiveTraceId() === undefined && getActiveSpanId() === undefined);
    startActiveObservation("a", (o) => {
      $.assert("ids of the active observation", getActiveTraceId() === o.traceId && getActiveSpanId() === o.id);
      $.assert("ids come from the span", o.traceId === provider.spans[0].ctx.traceId);
    });
    $.assert("none afterwards", getActiveTraceId() === undefined);
  },
};
