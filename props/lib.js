"use strict";
// Shared harness parts (instrumented like the harnesses).
// A real OpenTelemetry SDK pipeline around the real Langfuse span processor, with a recording exporter.
function otel(h, opts) {
  const o = opts || {};
  const api = h.require("@opentelemetry/api");
  const sdk = h.require("@opentelemetry/sdk-trace-base");
  const otelPkg = h.require("@langfuse/otel");
  const exported = [];
  const exporter = o.exporter || { export: (spans, cb) => { for (const s of spans) exported.push(s); cb({ code: 0 }); }, shutdown: () => Promise.resolve(), forceFlush: () => Promise.resolve() };
  api.context.setGlobalContextManager(h.contextManager(api.ROOT_CONTEXT));
  const processor = o.noProcessor ? undefined : new otelPkg.LangfuseSpanProcessor(Object.assign({ exporter, exportMode: "immediate", mediaUploadEnabled: false, publicKey: "pk", secretKey: "sk" }, o.params || {}));
  const provider = new sdk.BasicTracerProvider(Object.assign({ spanProcessors: processor ? [processor] : [], idGenerator: ids() }, o.provider || {}));
  api.trace.setGlobalTracerProvider(provider);
  const core = h.require("@langfuse/core");
  core.configureGlobalLogger && core.configureGlobalLogger({ level: 3 });
  const tracer = provider.getTracer(o.scope || "langfuse-sdk");
  // run fn with span as the active span of the current context
  const within = (span, fn) => api.context.with(api.trace.setSpan(api.context.active(), span), fn);
  const start = (name) => tracer.startSpan(name);
  return { api, sdk, provider, processor, exporter, exported, tracer, within, start, core };
}
// deterministic span and trace ids
function ids() { let n = 0; const hex = (l) => { n++; return (n + 4096).toString(16).padStart(l, "0"); }; return { generateTraceId: () => hex(32), generateSpanId: () => hex(16) }; }
// the propagated attributes of a span, as a plain object (everything but configuration and internals)
const PROPAGATED = ["user.id", "session.id", "langfuse.version", "langfuse.trace.name", "langfuse.trace.tags", "langfuse.environment", "langfuse.observation.prompt.name", "langfuse.observation.prompt.version"];
function propagated(span) {
  const out = {};
  for (const [k, v] of Object.entries(span.attributes)) if (v !== undefined && k !== "langfuse.internal.is_app_root" && k !== "langfuse.release") out[k] = v;
  return out;
}
// a LangfuseClient over a stubbed API; scores are collected as sent
function client(h, over, params) {
  const scores = [];
  const api = h.apiStub(Object.assign({ ingestion: { batch: (r) => { for (const e of r.batch) scores.push(e.body); return Promise.resolve({ successes: [], errors: [] }); } }, projects: { get: () => Promise.resolve({ data: [{ id: "proj" }] }) } }, over || {}));
  h.api(() => api);
  const { LangfuseClient } = h.require("@langfuse/client");
  return { client: new LangfuseClient(Object.assign({ publicKey: "pk", secretKey: "sk", baseUrl: "https://lf.example" }, params || {})), scores, api };
}
module.exports = { otel, client, propagated, PROPAGATED, ids };
