"use strict";
const TYPES = ["span", "generation", "event", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding"];
const O = "langfuse.observation.";
const PLAIN = { level: O + "level", statusMessage: O + "status_message", version: "langfuse.version", environment: "langfuse.environment", model: O + "model.name" };
const JSONED = { input: O + "input", output: O + "output", modelParameters: O + "model.parameters", usageDetails: O + "usage_details", costDetails: O + "cost_details", completionStartTime: O + "completion_start_time" };
const cyc = () => { const a = {}; a.a = a; return a; };
const str = (h, n) => h.string(n, { max: 2, bmp: true });
// strings inside JSON: arbitrary in the thorough run, and wherever the field is the subject; letters elsewhere
const nest = (h, n) => h.string(n, h.params.plain ? { max: 1, ranges: [[97, 122]] } : { max: h.tier === "thorough" ? 2 : 1, bmp: true });
const isNone = (v) => v === undefined || v === null;
const json = (v) => (isNone(v) ? undefined : typeof v === "string" ? v : JSON.stringify(v));
// an arbitrary value of a JSON-like shape, with symbolic leaves
function value(h, n) {
  const k = h.choice(n + ".kind", 11);
  return [() => undefined, () => null, () => str(h, n), () => h.int(n, -3, 3), () => h.bool(n), () => ({ k: nest(h, n), n: h.int(n + ".n", 0, 9) }), () => [h.int(n, -1, 1), null, { z: nest(h, n) }], () => "", () => new Date(1700000000123), () => 0, () => ({ a: null, u: undefined, l: [undefined, [null]], d: { e: null } })][k]();
}
// attributes of a span, apart from bookkeeping of the processor
const attrs = (span) => { const out = {}; for (const [k, v] of Object.entries(span.attributes)) if (v !== undefined && k !== "langfuse.internal.is_app_root" && k !== "langfuse.release") out[k] = v; return out; };
const put = (o, k, v) => { if (!isNone(v)) o[k] = v; };
module.exports = {
  assumptions: ["values are JSON-like, or not serializable at all (cycles, big integers, throwing toJSON); objects with throwing accessors are out of scope", "no propagated attributes are active"],
  harnesses: [
    {
      name: "fields", bounds: "each field in turn holding any of 11 shapes with symbolic leaves (strings of up to 2 BMP units, integers), next to two fixed other fields; set at start or by update, on all 10 types",
      quick: { cases: [...Object.keys(PLAIN), ...Object.keys(JSONED)].map((f) => ({ f, plain: f !== "input" && f !== "usageDetails" })) }, thorough: { cases: [...Object.keys(PLAIN), ...Object.keys(JSONED)].map((f) => ({ f })), timeS: 400, maxPaths: 20000 },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { startObservation, createObservationAttributes } = h.require("@langfuse/tracing"); const f = h.params.f; const t = h.pick("type", f === "input" || f === "output" ? TYPES : ["span", "generation"]);
        const v = PLAIN[f] ? (h.flag("none") ? h.pick("nothing", [undefined, null]) : str(h, "v")) : value(h, "v"); const a = { [f]: v }; if (f !== "statusMessage") a.statusMessage = "SM"; if (f !== "output") a.output = { o: 1 };
        const late = t !== "event" && h.flag("late"); const obs = late ? startObservation("n", {}, { asType: t }) : startObservation("n", h.freeze(a), { asType: t }); if (late) h.assert(obs.update(a) === obs, "update returns the observation");
        const exp = { [O + "type"]: t }; if (f !== "statusMessage") exp[O + "status_message"] = "SM"; if (f !== "output") exp[O + "output"] = "{\"o\":1}"; put(exp, PLAIN[f] || JSONED[f], PLAIN[f] ? v : json(v));
        h.observe("attributes", attrs(obs.otelSpan)); h.assert(h.eq(attrs(obs.otelSpan), exp), "exactly the fields set"); h.assert(h.eq(createObservationAttributes(t, a), exp), "exactly the fields set (mapping)");
      },
    },
    {
      name: "metadata", bounds: "metadata that is nothing, a symbolic string, number, boolean, array or an object with two keys (one symbolic of up to 2 units), each value of any of 11 shapes", quick: { cases: [{ k: 0 }, { k: 1 }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { startObservation } = h.require("@langfuse/tracing"); const exp = { [O + "type"]: "span", [O + "input"]: "i" }; let md;
        if (h.params.k === 0) { md = value(h, "md"); const plain = md !== null && typeof md === "object" && !Array.isArray(md) && !(md instanceof Date); h.assume(!(md instanceof Date)); if (plain) { for (const k of Object.keys(md)) put(exp, O + "metadata." + k, json(md[k])); } else put(exp, O + "metadata", json(md)); }
        else { const key = h.string("key", { max: 2 }); h.assume(h.not(h.eq(key, "b"))); h.assume(h.not(h.eq(key, "__proto__"))); const v = value(h, "v"); md = {}; md[key] = v; md.b = { c: [1] }; put(exp, O + "metadata." + key, json(v)); exp[O + "metadata.b"] = "{\"c\":[1]}"; }
        const late = h.flag("late"); const obs = startObservation("n", late ? {} : { metadata: md, input: "i" }); if (late) obs.update({ metadata: md, input: "i" }); h.assert(h.eq(attrs(obs.otelSpan), exp), "one attribute per key, other metadata whole");
      },
    },
    {
      name: "prompt link", bounds: "prompt absent, null, with symbolic name and version, fallback or not; observation types generation, span, embedding", quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { startObservation } = h.require("@langfuse/tracing"); const t = h.pick("type", ["generation", "span", "embedding"]); const k = h.choice("kind", 4); const name = str(h, "name"), version = h.int("version", -1, 3); const prompt = [undefined, null, { name, version, isFallback: false }, { name, version, isFallback: true }][k];
        const obs = startObservation("n", h.flag("late") ? {} : { prompt }, { asType: t }); obs.update({ prompt }); const exp = { [O + "type"]: t }; if (k === 2) { exp[O + "prompt.name"] = name; exp[O + "prompt.version"] = version; } h.assert(h.eq(attrs(obs.otelSpan), exp), "only real prompts are linked");
      },
    },
    {
      name: "updates override only what they set", bounds: "start and two updates, each setting or leaving out (or setting to undefined or null) input, level, metadata keys and model, with symbolic strings", quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { startObservation } = h.require("@langfuse/tracing"); const exp = { [O + "type"]: "generation" }; let obs;
        const fields = [["input", O + "input"], ["model", O + "model.name"], ["metadata", O + "metadata.m"]];
        const start = { input: str(h, "s0"), model: "m0", metadata: { m: "md0", z: 0 } }; exp[O + "input"] = start.input; exp[O + "model.name"] = "m0"; exp[O + "metadata.m"] = "md0"; exp[O + "metadata.z"] = "0"; obs = startObservation("n", start, { asType: "generation" });
        for (let i = 1; i < 3; i++) { const a = {}; const fk = h.choice("f" + i, 4); const how = fk < 3 ? h.choice("how" + i, 3) : 0; if (fk < 3) { const [f, key] = fields[fk]; const raw = how === 0 ? str(h, "v" + i) : how === 1 ? undefined : null; a[f] = f === "metadata" ? { m: raw, ["only" + i]: 1 } : raw; put(exp, key, raw); if (f === "metadata") exp[O + "metadata.only" + i] = "1"; } obs.update(a); }
        h.assert(h.eq(attrs(obs.otelSpan), exp), "later values win, the rest stays"); obs.end(); obs.update({ input: "late" }); h.assert(h.eq(attrs(obs.otelSpan), exp), "nothing changes after the end");
      },
    },
    {
      name: "unserializable values", bounds: "cycles, big integers, throwing toJSON, functions and symbols as input, output, metadata, metadata value, usage, cost or model parameters", quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const T = h.require("@langfuse/tracing"); const bad = h.pick("bad", [0, 1, 2, 3, 4]); const v = [cyc, () => ({ a: BigInt(1) }), () => ({ x: { toJSON() { throw new Error("no"); } } }), () => () => 1, () => Symbol("s")][bad](); const f = h.pick("f", ["input", "output", "metadata", "mkey", "usageDetails", "costDetails", "modelParameters", "completionStartTime"]); const a = f === "mkey" ? { metadata: { k: v } } : { [f]: v }; a.statusMessage = "S";
        const r = h.attempt(() => { const x = T.startObservation("n", a, { asType: "generation" }); x.update(a); x.setTraceIO(f === "mkey" ? {} : { input: v, output: v }); x.end(); return x; }); h.assert(r.status === "fulfilled", "never raises"); if (r.status === "fulfilled") { await h.tick(); const at = attrs(r.value.otelSpan); h.assert(at[O + "status_message"] === "S" && at[O + "type"] === "generation", "the other fields are kept"); h.assert(o.exported.length === 1, "still exported"); }
      },
    },
    {
      name: "trace fields", bounds: "trace input and output of any of 11 shapes, set on an observation or on the active one; publishing; active update with and without type", quick: { cases: [{ w: "obs", plain: 1 }, { w: "active", plain: 1 }] }, thorough: { cases: [{ w: "obs" }, { w: "active" }], timeS: 400, maxPaths: 20000 },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const T = h.require("@langfuse/tracing"); const f = h.pick("f", ["input", "output"]), v = value(h, "v"), pub = h.flag("pub"), both = h.flag("both"); const io = { [f]: v }; if (both) io[f === "input" ? "output" : "input"] = "B"; const outer = T.startObservation("outer", {}, { asType: "agent" }); const inner = T.startObservation("inner", { input: "I" }, { asType: "tool" }); const exp = { [O + "type"]: "tool", [O + "input"]: "I" }; let upd = 0;
        if (h.params.w === "obs") { h.assert(inner.setTraceIO(io) === inner, "chains"); if (pub) h.assert(inner.setTraceAsPublic() === inner, "chains"); }
        else { upd = h.choice("upd", 4); o.within(outer.otelSpan, () => o.within(inner.otelSpan, () => { T.setActiveTraceIO(io); if (pub) T.setActiveTraceAsPublic(); if (upd === 1) T.updateActiveObservation({ level: "WARNING", output: v }); if (upd === 2) T.updateActiveObservation({ model: "m", output: v }, { asType: "generation" }); if (upd === 3) T.updateActiveObservation({ output: v }, { asType: "span" }); h.assert(T.getActiveTraceId() === inner.traceId && T.getActiveSpanId() === inner.id, "ids of the active observation"); })); }
        put(exp, "langfuse.trace." + f, json(v)); if (both) exp["langfuse.trace." + (f === "input" ? "output" : "input")] = "B"; if (pub) exp["langfuse.trace.public"] = true; if (upd) { put(exp, O + "output", json(v)); if (upd === 1) exp[O + "level"] = "WARNING"; else if (upd === 3) exp[O + "type"] = "span"; else { exp[O + "model.name"] = "m"; exp[O + "type"] = "generation"; } }
        h.assert(h.eq(attrs(inner.otelSpan), exp), "exactly these"); h.assert(h.eq(attrs(outer.otelSpan), { [O + "type"]: "agent" }), "other observations are untouched");
        const none = h.attempt(() => { T.setActiveTraceIO(io); T.setActiveTraceAsPublic(); T.updateActiveObservation({ output: v }); return [T.getActiveTraceId(), T.getActiveSpanId()]; }); h.assert(none.status === "fulfilled" && none.value[0] === undefined && none.value[1] === undefined, "without an active span nothing happens");
      },
    },
    {
      name: "children and kinds", bounds: "10 parent types × 10 child types, start times, events ending at once", quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const T = h.require("@langfuse/tracing"); const pt = h.pick("parent", TYPES), ct = h.pick("child", pt === "span" ? TYPES : ["span", "event"]); const at = h.flag("at") ? new Date(1700000000500) : undefined; const end = h.flag("end") ? new Date(1700000009000) : undefined; h.setNow(1700000001000);
        const p = T.startObservation("p", { input: "P" }, { asType: pt, startTime: at }); const c = p.startObservation("c", { output: "C" }, { asType: ct }); h.assert(p.type === pt && c.type === ct, "kinds"); h.assert(c.traceId === p.traceId && c.otelSpan.parentSpanContext.spanId === p.id && c.id !== p.id, "child of its parent"); if (at) h.assert(p.otelSpan.startTime[0] === 1700000000 && p.otelSpan.startTime[1] === 500000000, "start time");
        for (const x of [p, c]) h.assert(x.otelSpan.ended === (x.type === "event"), "only events end by themselves"); p.end(end); c.end(); h.assert(p.otelSpan.ended && c.otelSpan.ended, "ended"); if (end && pt !== "event") h.assert(p.otelSpan.endTime[0] === 1700000009, "end time"); await h.tick(); h.assert(o.exported.length === 2, "each exported once"); h.assert(h.eq(attrs(c.otelSpan), { [O + "type"]: ct, [O + "output"]: "C" }) && h.eq(attrs(p.otelSpan), { [O + "type"]: pt, [O + "input"]: "P" }), "own fields only");
      },
    },
    {
      name: "many keys and long values", bounds: "70 and 110 metadata keys (OpenTelemetry itself stops at 128 attributes), usage or cost entries and model parameters, nested values, texts of 5000 and 70000 characters (concrete sizes) next to a symbolic one; at start, by update or after it", quick: { cases: [70, 110].map((n) => ({ n })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const T = h.require("@langfuse/tracing"); const n = h.params.n; const s = h.string("s", { max: 1, ascii: true }); const rec = {}, exp = { [O + "type"]: "generation" }; for (let i = 0; i < n; i++) rec["k" + i] = i % 2 ? i : 0.5; const f = h.pick("f", ["metadata", "usageDetails", "costDetails", "modelParameters", "input", "output", "statusMessage"]); const long = "x".repeat(n === 70 ? 5000 : 70000); const md = {}; for (let i = 0; i < n; i++) { md["k" + i] = i === n - 1 ? s : i % 3 ? "v" + i : { deep: { n: i, l: [null] } }; }
        const v = f === "metadata" ? md : f === "input" ? long : f === "output" ? { long, l: Array.from({ length: n }, (x, i) => i) } : f === "statusMessage" ? long : rec; if (f === "metadata") for (const [k, x] of Object.entries(md)) exp[O + "metadata." + k] = json(x); else put(exp, PLAIN[f] || JSONED[f], f === "statusMessage" ? v : json(v)); const late = h.flag("late"); const obs = T.startObservation("n", late ? {} : { [f]: v }, { asType: "generation" }); if (late) obs.update({ [f]: v }); h.assert(h.eq(attrs(obs.otelSpan), exp), "every key and the whole text");
      },
    },
  ],
};
