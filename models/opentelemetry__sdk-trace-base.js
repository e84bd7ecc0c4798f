// Stand-in for the OpenTelemetry SDK's span processors: hands every ended span to the exporter's log, in order.
class P {
  constructor(exporter, options) { this.exporter = exporter; this.options = options; if (exporter && exporter.processors) exporter.processors.push(this); this.started = []; this.ended = []; this.flushes = 0; this.shutdowns = 0; }
  onStart(span, ctx) { this.started.push({ span, ctx }); if (this.exporter && this.exporter.onStart) this.exporter.onStart(span, ctx); }
  onEnd(span) { this.ended.push(span); if (this.exporter && this.exporter.onSpan) this.exporter.onSpan(span); }
  async forceFlush() { this.flushes++; if (this.exporter && this.exporter.onFlush) await this.exporter.onFlush(); }
  async shutdown() { this.shutdowns++; if (this.exporter && this.exporter.onShutdown) await this.exporter.onShutdown(); }
}
export class BatchSpanProcessor extends P { constructor(e, o) { super(e, o); this.kind = "batch"; } }
export class SimpleSpanProcessor extends P { constructor(e, o) { super(e, o); this.kind = "simple"; } }
