/*META {"trusted":["OpenTelemetry SDK span processors and exporter (models/opentelemetry__*.js)"]} */
import { recorder, mkSpan, mkProc } from "./lib/proc.js";
import { isDefaultExportSpan, isLangfuseSpan, isGenAISpan, isKnownLLMInstrumentor } from "@langfuse/otel";
const DOTTED = ["langfuse-sdk", "agent_framework", "haystack", "langsmith", "litellm", "openinference", "opentelemetry.instrumentation.anthropic", "opentelemetry.instrumentation.aws_bedrock", "opentelemetry.instrumentation.bedrock", "opentelemetry.instrumentation.gemini", "opentelemetry.instrumentation.google_genai", "opentelemetry.instrumentation.google_generativeai", "opentelemetry.instrumentation.openai", "opentelemetry.instrumentation.openai_v2", "opentelemetry.instrumentation.vertex_ai", "opentelemetry.instrumentation.vertexai", "strands-agents", "vllm"];
const llmScope = (s) => s === "ai" || DOTTED.some((p) => s === p || s.startsWith(p + "."));
const scopes = [...DOTTED, "ai", "ai.x", "aix", "langfuse-sdkx", "vllm.engine", "litellm.proxy", "openinference.instrumentation.x", "http", "express", "opentelemetry.instrumentation.openai.v1", "opentelemetry.instrumentation.openaix", "opentelemetry", "opentelemetry.instrumentation", "Langfuse-SDK", "xlangfuse-sdk"];
export const units = {
  byScope: ($, T) => {
    const scope = $.in("scope", T.strOf({ pool: scopes }));
    const span = mkSpan({ scope, attributes: {} });
    $.assert("langfuse spans", isLangfuseSpan(span) === (scope === "langfuse-sdk"));
    $.assert("known instrumentors, exactly or below a dot", isKnownLLMInstrumentor(span) === llmScope(scope));
    $.assert("default filter", isDefaultExportSpan(span) === llmScope(scope));
  },
  byAttribute: ($, T) => {
    const attributes = $.in("attributes", T.dict(T.any)), k = $.in("key", T.strOf({ pool: ["gen_ai.system", "gen_ai.", "gen_ai", "gen_aix.y", "x.gen_ai.y", "GEN_AI.x"] })), v = $.in("value", T.any);
    const none = Object.keys(attributes).every((x) => !x.startsWith("gen_ai."));
    $.assert("gen_ai attribute present iff a key starts with the prefix", isGenAISpan(mkSpan({ scope: "http", attributes })) === !none);
    $.assert("default filter agrees for foreign scopes", isDefaultExportSpan(mkSpan({ scope: "http", attributes })) === !none);
    $.assert("one key decides", isDefaultExportSpan(mkSpan({ scope: "http", attributes: { a: 1, [k]: v } })) === k.startsWith("gen_ai."));
  },
  defaultExport: async ($, T) => {
    const scope = $.in("scope", T.strOf({ pool: scopes })), gen = $.in("gen", T.bool);
    const ex = recorder(), proc = mkProc(ex);
    proc.onEnd(mkSpan({ scope, attributes: gen ? { "gen_ai.system": "x" } : { "http.url": "x" } }));
    await proc.forceFlush();
    $.assert("exported iff the default filter accepts", ex.spans.length === (gen || llmScope(scope) ? 1 : 0));
  },
  custom: async ($, T) => {
    const scope = $.in("scope", T.strOf({ pool: scopes })), verdict = $.in("verdict", T.or(T.bool, T.lit("throw")));
    const ex = recorder(); let seen = [], masks = 0;
    const span = mkSpan({ scope, attributes: { "langfuse.observation.input": "i" } });
    const proc = mkProc(ex, { mask: () => { masks++; return "m"; }, shouldExportSpan: ({ otelSpan }) => { seen.push(otelSpan); if (verdict === "throw") throw new Error("x"); return verdict; } });
    proc.onEnd(span);
    await proc.forceFlush();
    $.assert("the predicate sees the span once at its end", seen.length === 1 && seen[0] === span);
    $.assert("it overrides the default completely, failures drop", ex.spans.length === (verdict === true ? 1 : 0));
    $.assert("dropped spans are not processed further", masks === (verdict === true ? 1 : 0));
  },
  independent: async ($, T) => {
    const a = $.in("a", T.bool), b = $.in("b", T.bool), c = $.in("c", T.bool), thr = $.in("throwB", T.bool);
    const ex = recorder(), keep = [a, b, c];
    const spans = keep.map((k, i) => mkSpan({ id: "id" + i, attributes: {} }));
    const proc = mkProc(ex, { shouldExportSpan: ({ otelSpan }) => { const i = spans.indexOf(otelSpan); if (i === 1 && thr) throw new Error("x"); return keep[i]; } });
    for (const s of spans) proc.onEnd(s);
    await proc.forceFlush();
    const exp = spans.filter((s, i) => keep[i] && !(i === 1 && thr));
    $.assert("count", ex.spans.length === exp.length);
    $.assert("exactly the accepted spans in order", exp.every((s, i) => ex.spans[i] === s));
  },
};
