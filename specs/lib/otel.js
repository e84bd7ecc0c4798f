// Harness OpenTelemetry runtime used by contract units (works symbolically and concretely).
import { AsyncLocalStorage } from "node:async_hooks";
import { context, trace, propagation, ROOT_CONTEXT } from "@opentelemetry/api";

import { getGlobalLogger } from "@repo/packages/core/src/logger/index.ts";
getGlobalLogger(); // the process-wide logger exists before any contract unit runs

export class HarnessContextManager {
  constructor() { this.als = new AsyncLocalStorage(); }
  active() { return this.als.getStore() ?? ROOT_CONTEXT; }
  with(ctx, fn, thisArg, ...args) { return this.als.run(ctx, () => fn.call(thisArg, ...args)); }
  bind(ctx, target) { return target; }
  enable() { return this; }
  disable() { return this; }
}
export class HarnessSpan {
  constructor(o) {
    this.name = o.name;
    this.options = o.options ?? {};
    this.ctx = o.ctx;
    this.parentCtx = o.parentCtx;
    this.scope = o.scope;
    this.attributes = {};
    this.ends = [];
    this.endCount = 0;
    this.statuses = [];
    this.exceptions = [];
    this.names = [];
    this.writesAfterEnd = 0;
    this.recording = o.recording ?? true;
    const init = this.options.attributes;
    if (init) for (const [k, v] of Object.entries(init)) this.attributes[k] = v;
  }
  spanContext() { return this.ctx; }
  setAttribute(k, v) { if (this.endCount > 0) { this.writesAfterEnd++; return this; } this.attributes[k] = v; return this; }
  setAttributes(o) { if (this.endCount > 0) { this.writesAfterEnd++; return this; } for (const [k, v] of Object.entries(o)) this.attributes[k] = v; return this; }
  addEvent() { return this; }
  addLink() { return this; }
  addLinks() { return this; }
  setStatus(s) { this.statuses.push(s); return this; }
  updateName(n) { this.names.push(n); this.name = n; return this; }
  end(t) { this.endCount++; this.ends.push(t); }
  isRecording() { return this.recording && this.endCount === 0; }
  recordException(e) { this.exceptions.push(e); }
}
export class HarnessTracer {
  constructor(provider, scope) { this.provider = provider; this.scope = scope; }
  startSpan(name, options, ctx) {
    const c = ctx ?? context.active();
    const parent = options && options.root ? undefined : trace.getSpanContext(c);
    const n = this.provider.spans.length;
    const span = new HarnessSpan({ name, options, scope: this.scope, parentCtx: parent, recording: this.provider.recording,
      ctx: { traceId: parent ? parent.traceId : "trace-" + n, spanId: "span-" + n, traceFlags: parent ? parent.traceFlags : 1 } });
    this.provider.spans.push(span);
    if (this.provider.onStart) this.provider.onStart(span, c);
    return span;
  }
  startActiveSpan(name, a, b, c) {
    let opts, ctx, fn;
    if (typeof a === "function") fn = a; else if (typeof b === "function") { opts = a; fn = b; } else { opts = a; ctx = b; fn = c; }
    const parent = ctx ?? context.active();
    const span = this.startSpan(name, opts, parent);
    return context.with(trace.setSpan(parent, span), fn, undefined, span);
  }
}
export class HarnessProvider {
  constructor(o) { this.spans = []; this.recording = true; this.scopes = []; if (o && o.onStart) this.onStart = o.onStart; }
  getTracer(name, version, options) { this.scopes.push({ name, version, options }); return new HarnessTracer(this, { name, version }); }
}
const manager = new HarnessContextManager();
// installs a fresh context manager and tracer provider as the OpenTelemetry globals
export function setupOtel(o) {
  context.disable(); trace.disable(); propagation.disable();
  context.setGlobalContextManager(manager);
  const provider = new HarnessProvider(o);
  trace.setGlobalTracerProvider(provider);
  return provider;
}
export { context, trace, propagation, ROOT_CONTEXT };
