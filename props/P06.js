"use strict";
const KNOWN = ["langfuse-sdk", "agent_framework", "ai", "haystack", "langsmith", "litellm", "openinference", "opentelemetry.instrumentation.anthropic", "opentelemetry.instrumentation.aws_bedrock", "opentelemetry.instrumentation.bedrock", "opentelemetry.instrumentation.gemini", "opentelemetry.instrumentation.google_genai", "opentelemetry.instrumentation.google_generativeai", "opentelemetry.instrumentation.openai", "opentelemetry.instrumentation.openai_v2", "opentelemetry.instrumentation.vertex_ai", "opentelemetry.instrumentation.vertexai", "strands-agents", "vllm"];
const okScope = (h, s) => h.or(KNOWN.map((k) => (k === "ai" ? h.eq(s, k) : h.or(h.eq(s, k), s.startsWith(k + ".")))));
const VERDICTS = [true, false, undefined, null, 0, "", "no", {}, "throw"];
module.exports = {
  assumptions: ["the underlying exporter accepts every batch", "spans are sampled"],
  harnesses: [
    {
      name: "configured filter", bounds: "2 (quick) / 3 (thorough) spans, each with any of 8 filter results or a throwing filter, ended in any order, immediate or batched, flush or shutdown",
      quick: { cases: [{ n: 2, mode: "immediate" }, { n: 2, mode: "batched" }] }, thorough: { cases: [{ n: 3, mode: "immediate" }, { n: 3, mode: "batched" }], timeS: 900 },
      run: async (h) => {
        const L = h.require("./lib.js"); const v = {}; const { n, mode } = h.params;
        const o = L.otel(h, { params: { exportMode: mode, shouldExportSpan: ({ otelSpan }) => { const x = v[otelSpan.name]; if (x === "throw") throw new Error("filter"); return x; } } });
        const spans = []; for (let i = 0; i < n; i++) { v["s" + i] = h.pick("v" + i, VERDICTS); spans.push(o.start("s" + i)); }
        if (h.flag("reverse")) spans.reverse(); for (const s of spans) s.end();
        const r = await h.settle(h.flag("shutdown") ? o.processor.shutdown() : o.processor.forceFlush()); h.assert(r.status === "fulfilled", "flush resolves");
        for (let i = 0; i < n; i++) { const c = o.exported.filter((s) => s.name === "s" + i).length; h.assert(c === (v["s" + i] === false || v["s" + i] === "throw" ? 0 : 1), "span " + i + " exported as decided"); }
      },
    },
    {
      name: "default filter: scope", bounds: "scope names: arbitrary strings of up to 3 units; each of 19 known names followed by up to 2 symbolic units; each with its last or first character replaced by a symbolic one",
      quick: { cases: [{ m: "short" }, ...KNOWN.map((k) => ({ m: "suffix", k })), ...["langfuse-sdk", "ai", "vllm", "openinference", "opentelemetry.instrumentation.openai", "strands-agents"].map((k) => ({ m: "near", k }))] },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const { m, k } = h.params; let scope;
        if (m === "short") scope = h.string("scope", { min: 1, max: 3 }); else if (m === "suffix") scope = k + h.string("suf", { max: 2 });
        else scope = h.flag("last") ? k.slice(0, -1) + h.string("c", { max: 1 }) : h.string("c", { min: 1, max: 1 }) + k.slice(1);
        const span = o.provider.getTracer(scope).startSpan("s"); span.end();
        const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled", "flush resolves");
        h.assert(h.iff(o.exported.length === 1, okScope(h, scope)), "exported iff the scope is known"); h.assert(o.exported.length <= 1, "at most once");
      },
    },
    {
      name: "default filter: attributes", bounds: "an unknown scope and two attributes, one with a key of up to 3 symbolic units or 'gen_ai' followed by up to 2 symbolic units, or a symbolic unit before 'gen_ai.x'; set at start or later",
      quick: { cases: [{ m: "short" }, { m: "near" }, { m: "before" }] },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const m = h.params.m;
        const key = m === "short" ? h.string("k", { min: 1, max: 3 }) : m === "near" ? "gen_ai" + h.string("k", { max: 2 }) : h.string("k", { max: 1 }) + "gen_ai.x";
        const later = h.flag("later"); const span = o.provider.getTracer("my-app").startSpan("s", { attributes: later ? { a: 1 } : { a: 1, [key]: "v" } }); if (later) span.setAttribute(key, "v"); span.end();
        const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled", "flush resolves");
        h.assert(h.iff(o.exported.length === 1, key.startsWith("gen_ai.")), "exported iff a gen_ai attribute is present");
      },
    },
    {
      name: "default filter: combinations", bounds: "each OpenTelemetry kind, unset or error status, with 0, 15, 40 or 120 other attributes before and after a 'gen_ai.' one (or none), scope unknown, known or Langfuse's with a version; child of a rejected span or root; events and links present",
      quick: { cases: [0, 15, 40, 120].map((n) => ({ n })) },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const attrs = {}; for (let i = 0; i < h.params.n; i++) attrs["a" + i] = i; const gen = h.choice("gen", 3), v = gen ? h.pick("v", ["", 0, ["a"]]) : 0; if (gen === 1) attrs["gen_ai.x"] = v; if (gen === 2) attrs["http.gen_ai.x"] = v; attrs["llm.z"] = 1; attrs["langfuse.observation.type"] = "span";
        const scope = h.pick("scope", ["my-app", "langfuse-sdk", "litellm.x"]), kind = h.choice("kind", 5), st = h.choice("status", 2) * 2; let ctx = o.api.ROOT_CONTEXT; if (kind % 2) ctx = o.api.trace.setSpan(ctx, o.provider.getTracer("other").startSpan("p")); const span = o.provider.getTracer(scope, "1.2.3").startSpan("s", { kind, attributes: attrs }, ctx); span.addEvent("e"); if (st) span.setStatus({ code: st }); span.end(); const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled", "flush resolves");
        h.assert(o.exported.length === (scope !== "my-app" || gen === 1 ? 1 : 0), "exported as the default filter says");
      },
    },
    {
      name: "many spans", bounds: "700 spans (concrete number), of which 0, 300 or 600 are still open at the flush, with one symbolic span rejected, failing (with an Error, a text, null or undefined) or accepted; batched or immediate; filter asked about the symbolic one only once it ended",
      quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const at = h.pick("at", [0, 65, 300, 699]), w = h.choice("w", 6); const o = L.otel(h, { params: { exportMode: h.flag("batched") ? "batched" : "immediate", shouldExportSpan: ({ otelSpan }) => { if (otelSpan.name !== "s" + at) return true; if (w === 0) return true; if (w === 1) return false; throw [new Error("x"), "x", null, undefined][w - 2]; } } });
        const open = h.pick("open", [0, 300, 600]); const spans = []; for (let i = 0; i < 700; i++) spans.push(o.start("s" + i)); const skip = new Set(); for (let i = 0, k = 0; i < 700 && k < open; i++) if (i !== at) { skip.add(i); k++; } spans.forEach((s, i) => { if (!skip.has(i)) s.end(); }); const r = await h.settle(o.processor.forceFlush(), { timers: true }); h.assert(r.status === "fulfilled", "flush resolves"); const names = new Set(o.exported.map((s) => s.name)); h.assert(names.size === o.exported.length, "no span twice"); h.assert(names.size === 700 - open - (w === 0 ? 0 : 1), "every ended and accepted span exported"); h.assert(names.has("s" + at) === (w === 0), "the one under test as decided");
      },
    },
    {
      name: "filter failures", bounds: "a filter that throws an Error, a text, null, undefined, a number or an object for a symbolic subset of three spans, or returns a promise of false",
      quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const v = {}; const what = h.pick("what", [new Error("x"), "x", null, undefined, 0, { message: "x" }]); const o = L.otel(h, { params: { shouldExportSpan: ({ otelSpan }) => { if (v[otelSpan.name] === 1) throw what; return v[otelSpan.name] === 2 ? false : true; } } }); const sp = []; for (let i = 0; i < 3; i++) { v["s" + i] = h.choice("v" + i, 3); sp.push(o.start("s" + i)); } for (const s of sp) s.end(); const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled", "flush resolves"); for (let i = 0; i < 3; i++) h.assert(o.exported.filter((s) => s.name === "s" + i).length === (v["s" + i] === 0 ? 1 : 0), "span " + i);
      },
    },
  ],
};
