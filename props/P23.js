"use strict";
const TYPES = ["operation", "step", "languageModel", "embedding", "reranking", "toolExecution", "tool", "objectStep"];
const MODEL = ["languageModel", "embedding", "reranking"];
const META = "langfuse.observation.metadata.", PN = "langfuse.observation.prompt.name", PV = "langfuse.observation.prompt.version";
// Vercel's span-creating class is outside the repository: the stand-in keeps the options and records what is forwarded
const stubs = { "@ai-sdk/otel": (w) => w.aiStub || (w.aiStub = { OpenTelemetry: Object.assign(function (o) { return w.env.ctl.G.__delegate(o); }, { $trusted: true }) }) };
const setup = (h, options) => { const calls = []; let opts, n = 0; h.global("__delegate", (o) => { n++; opts = o; return h.G.__d; }); h.G.__d = new Proxy({}, { get: (t, k) => (typeof k === "symbol" || k === "then" ? undefined : (...a) => { calls.push({ k, a }); return h.G.__result ? h.G.__result(k, a) : undefined; }) }); const { LangfuseVercelAiSdkIntegration: C } = h.require("@langfuse/vercel-ai-sdk"); const it = options === undefined ? new C() : new C(options); return { it, opts, calls, n }; };
const value = (h, name) => { switch (h.choice(name, 12)) {
  case 0: { const s = h.string(name + "s", { max: 3, bmp: true }); return [s, s]; }
  case 1: { const n = h.int(name + "n", -1000, 1000); return [n, JSON.stringify(n)]; }
  case 2: { const b = h.bool(name + "b"); return [b, JSON.stringify(b)]; }
  case 3: { const v = { a: [h.string(name + "o", { max: 2, bmp: true }), null], b: h.int(name + "i", 0, 9), c: { d: null, e: false } }; return [v, JSON.stringify(v)]; }
  case 4: return [null, undefined]; case 5: return [undefined, undefined]; case 6: return ["", ""]; case 7: return [[], "[]"];
  case 8: { const c = {}; c.c = c; return [c, "<failed to serialize>"]; } case 9: return [10n, "<failed to serialize>"]; case 10: return [() => 1, undefined]; default: return [0, "0"]; } };
module.exports = {
  assumptions: ["@ai-sdk/otel calls the given enrichSpan with span type and runtime context and adds what it returns; it is replaced by a recorder", "runtime contexts are plain objects without throwing accessors"],
  harnesses: [
    {
      name: "metadata", bounds: "0..2 entries with keys of up to 2 symbolic units and 12 kinds of values (texts, numbers, flags, nested, empty, null, absent, cyclic, big integers, functions); every span type; missing contexts",
      quick: { cases: [{ n: 1 }, { n: 2 }] }, thorough: { cases: [{ n: 1, deep: true }, { n: 2, deep: true }] }, meta: { stubs },
      run: async (h) => {
        const { opts } = setup(h); const spanType = h.pick("type", h.params.n === 2 && h.tier === "quick" ? ["languageModel", "step"] : TYPES); const ctx = {}, want = {};
        if (h.params.n === 1) { const w = h.choice("none", 4); if (w) { const r = h.attempt(() => opts.enrichSpan({ spanType, runtimeContext: [undefined, null, {}][w - 1], operationId: "x", callId: "c" })); h.assert(r.status === "fulfilled" && h.eq(r.value === undefined ? {} : r.value, {}), "nothing without a context"); return; } }
        const key = h.string("k", { max: 2, bmp: true }); const [v, s] = value(h, "v"); ctx[key] = v; if (s !== undefined) want[META + key] = s;
        if (h.params.n === 2) { const k2 = h.pick("k2", ["a", "langfusePromptX", "langfuse"]); h.assume(h.not(h.eq(key, k2))); const [v2, s2] = h.flag("big") ? [{ x: key }, JSON.stringify({ x: key })] : ["t", "t"]; ctx[k2] = v2; if (s2 !== undefined) want[META + k2] = s2; }
        const before = h.clone({ k: Object.keys(ctx).length }); const r = h.attempt(() => opts.enrichSpan({ spanType, runtimeContext: ctx, operationId: "x", callId: "c" })); h.assert(r.status === "fulfilled", "never throws"); h.assert(h.eq(r.value, want), "each entry under its own key, texts as they are, the rest as JSON"); h.assert(Object.keys(ctx).length === before.k, "context untouched");
      },
    },
    {
      name: "prompt link", bounds: "prompts of 10 shapes with symbolic names (up to 3 units) and integer versions, fallback flag true, false, missing or not a flag; every span type; with and without another entry",
      quick: {}, meta: { stubs }, mustReach: ["linked", "not linked"],
      run: async (h) => {
        const { opts } = setup(h); const spanType = h.pick("type", TYPES), name = h.string("name", { max: 3, bmp: true }), version = h.int("version", -5, 1000), other = h.flag("other");
        const w = h.choice("shape", 11); let p, ok = false;
        if (w < 4) { const fb = [undefined, false, true, "yes"][w]; p = fb === undefined ? { name, version } : { name, version, isFallback: fb }; ok = fb !== true; }
        else if (w === 4) { class Prompt { constructor() { this.name = name; this.version = version; this.isFallback = false; this.prompt = "x"; } } p = new Prompt(); ok = true; }
        else p = [undefined, null, name, [name, version], { name }, { name, version: "" + version }, { name: 3, version }][w - 5];
        const ctx = Object.assign({ langfusePrompt: p }, other ? { o: name } : {}); h.freeze(other ? {} : ctx);
        const r = h.attempt(() => opts.enrichSpan({ spanType, runtimeContext: ctx, operationId: "x", callId: "c" })); h.assert(r.status === "fulfilled", "never throws");
        const want = other ? { [META + "o"]: name } : {}; if (ok && MODEL.includes(spanType)) { want[PN] = name; want[PV] = version; h.reach("linked"); } else h.reach("not linked");
        h.assert(h.eq(r.value, want), "linked exactly on model calls, with the prompt's own name and version; never as metadata");
      },
    },
    {
      name: "large and unusual entries", bounds: "1, 25 or 120 entries; texts of 1500 units; dates, nested dates, class instances, values with their own JSON form (also undefined or throwing), lists of 50; fractional, huge, negative and not-a-number versions; prompts next to such entries; contexts without prototype", quick: {}, meta: { stubs }, mustReach: ["linked"],
      run: async (h) => {
        const { opts } = setup(h); const n = h.pick("n", [1, 25, 120]); const s = h.string("s", { max: 1, ranges: [[97, 122]] }); const d = new Date(1700000000123); class Pt { constructor() { this.x = s; } } const big = "y".repeat(1500) + s; const odd = h.choice("odd", 9); const [v, w] = [[big, big], [d, JSON.stringify(d)], [{ at: d, l: [d] }, JSON.stringify({ at: d, l: [d] })], [new Pt(), JSON.stringify({ x: s })], [{ toJSON: () => ({ j: s }) }, JSON.stringify({ j: s })], [{ toJSON: () => undefined }, undefined], [{ toJSON: () => { throw new Error("no"); } }, "<failed to serialize>"], [Array.from({ length: 50 }, (_, i) => i), JSON.stringify(Array.from({ length: 50 }, (_, i) => i))], [-0.5, "-0.5"]][odd];
        const ctx = n === 1 && h.flag("bare") ? Object.create(null) : {}; const want = {}; for (let i = 0; i < n - 1; i++) { ctx["e" + i] = i % 2 ? "t" + i : i; want[META + "e" + i] = String(i % 2 ? "t" + i : i); } ctx.odd = v; if (w !== undefined) want[META + "odd"] = w; const pv = h.pick("pv", [undefined, 1.5, 1e20, -3, 0]); if (pv !== undefined) { ctx.langfusePrompt = { name: "p" + s, version: pv }; want[PN] = "p" + s; want[PV] = pv; h.reach("linked"); }
        const r = h.attempt(() => opts.enrichSpan({ spanType: "languageModel", runtimeContext: ctx, operationId: "x", callId: "c" })); h.assert(r.status === "fulfilled", "never throws"); h.assert(h.eq(r.value, want), "each entry under its own key, texts as they are, the rest as JSON");
      },
    },
    {
      name: "falsy events", bounds: "every telemetry event method with an event that is undefined, null, zero, empty or false", quick: {}, meta: { stubs },
      run: async (h) => { const s = setup(h); const m = h.pick("m", ["onStart", "onStepStart", "onLanguageModelCallStart", "onLanguageModelCallEnd", "onToolExecutionStart", "onToolExecutionEnd", "onStepEnd", "onObjectStepStart", "onObjectStepEnd", "onEmbedStart", "onEmbedEnd", "onRerankStart", "onRerankEnd", "onEnd", "onAbort", "onError"]); const e = h.pick("e", [undefined, null, 0, "", false]); s.it[m](e); h.assert(s.calls.length === 1 && s.calls[0].k === m && s.calls[0].a[0] === e, "passed on as it is"); },
    },
    {
      name: "forwarding", bounds: "every telemetry method with a symbolic event; executions that resolve, reject or throw; with and without a tracer", quick: {}, meta: { stubs },
      run: async (h) => {
        const tracer = h.flag("tracer") ? { startSpan: () => 1 } : undefined; const s = setup(h, tracer ? { tracer } : h.flag("empty") ? {} : undefined); h.assert(s.n === 1 && s.opts.tracer === tracer, "the given tracer"); 
        const EV = ["onStart", "onStepStart", "onLanguageModelCallStart", "onLanguageModelCallEnd", "onToolExecutionStart", "onToolExecutionEnd", "onStepEnd", "onObjectStepStart", "onObjectStepEnd", "onEmbedStart", "onEmbedEnd", "onRerankStart", "onRerankEnd", "onEnd", "onAbort", "onError", "executeTool", "executeLanguageModelCall"];
        const m = h.pick("m", EV); const e = { id: h.string("id", { max: 2 }) };
        if (m.startsWith("execute")) {
          const err = new Error("tool"), w = h.choice("w", 3); let runs = 0; const params = { callId: "c", toolCallId: "t", execute: () => { runs++; if (w === 2) throw err; return w ? Promise.reject(err) : Promise.resolve(e); } };
          h.G.__result = (k, a) => a[0].execute(); const r = h.attempt(() => s.it[m](params)); const st = r.status === "rejected" ? r : await h.settle(r.value);
          h.assert(s.calls.length === 1 && s.calls[0].k === m && runs === 1, "executed once"); h.assert(s.calls[0].a[0].callId === "c" && s.calls[0].a[0].toolCallId === "t", "same call"); h.assert(w ? st.status === "rejected" && st.reason === err : st.status === "fulfilled" && st.value === e, "result or failure handed back"); return;
        }
        s.it[m](e); h.assert(s.calls.length === 1 && s.calls[0].k === m && s.calls[0].a[0] === e, "every event is passed on once, to its own handler, as it is");
      },
    },
  ],
};
