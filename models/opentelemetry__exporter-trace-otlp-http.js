// Stand-in for the OTLP exporter: remembers its configuration.
export const created = [];
export class OTLPTraceExporter { constructor(config) { this.config = config; this.processors = []; created.push(this); } }
