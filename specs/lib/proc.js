// Harness for the span processor: a recording exporter and readable spans.
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { ROOT_CONTEXT, context, trace, propagation } from "./otel.js";
export function recorder() {
  const r = { processors: [], spans: [], seen: [], flushes: 0, shutdowns: 0,
    onSpan(s) { r.spans.push(s); r.seen.push({ ...s.attributes }); }, onFlush: async () => { r.flushes++; r.atFlush = r.spans.length; }, onShutdown: async () => { r.shutdowns++; r.atFlush = r.spans.length; } };
  return r;
}
let n = 0;
export function mkSpan(o) {
  const id = o.id ?? "s" + n++;
  return {
    name: o.name ?? "span", kind: 0, attributes: o.attributes ?? {}, instrumentationScope: { name: o.scope ?? "langfuse-sdk", version: "1" },
    parentSpanContext: o.parent, status: { code: 0 }, resource: { attributes: {} }, startTime: [0, 0], endTime: [0, 0], duration: [0, 0],
    spanContext() { return { traceId: o.traceId ?? "t1", spanId: id, traceFlags: 1 }; },
    setAttribute(k, v) { if (v !== undefined && v !== null) this.attributes[k] = v; return this; },
    setAttributes(a) { for (const [k, v] of Object.entries(a)) if (v !== undefined && v !== null) this.attributes[k] = v; return this; },
  };
}
export const mkProc = (exporter, o) => new LangfuseSpanProcessor({ exporter, publicKey: "pk", secretKey: "sk", baseUrl: "https://h", mediaUploadEnabled: false, ...o });
export { ROOT_CONTEXT, context, trace, propagation, LangfuseSpanProcessor };
