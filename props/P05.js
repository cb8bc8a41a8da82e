"use strict";
const NAMES = ["in", "out", "tin", "tout", "meta", "tmeta", "metak", "tmetak"];
const A = { in: "langfuse.observation.input", out: "langfuse.observation.output", tin: "langfuse.trace.input", tout: "langfuse.trace.output", meta: "langfuse.observation.metadata", tmeta: "langfuse.trace.metadata" };
const FULL = "<fully masked due to failed mask function>";
const OTHER = { "langfuse.observation.model.name": "m", "user.id": "secret-user", "langfuse.observation.metadatax": "keep", "langfuse.observation.type": "span", "custom.input": "keep too", "langfuse.observation.usage_details": "{}" };
const FALSY = ["", null, 0];
// the mask under test: how it answers is chosen per value by the prefix of the value
function makeMask(h, how, calls, gates) {
  return ({ data }) => {
    calls.push(data); const k = NAMES.find((x) => data.startsWith(x + ":")); const w = how[k] === undefined ? 0 : how[k];
    if (w === 0) return "masked(" + k + ")"; if (w === 1) return Promise.resolve("later(" + k + ")"); if (w === 2) throw new Error("mask"); if (w === 3) return Promise.reject(new Error("mask")); if (w === 4) return { nested: k };
    if (w === 5) return gates[k].promise; if (w === 9) return Promise.resolve(""); return FALSY[w - 6];
  };
}
const result = (k, w) => (w === 0 ? "masked(" + k + ")" : w === 1 ? "later(" + k + ")" : w === 4 ? { nested: k } : w === 5 ? "gated(" + k + ")" : w === 9 ? "" : w >= 6 ? FALSY[w - 6] : FULL);
const snapshotExporter = (exported) => ({ export: (spans, cb) => { for (const s of spans) exported.push(Object.assign({}, s.attributes)); cb({ code: 0 }); }, shutdown: () => Promise.resolve(), forceFlush: () => Promise.resolve() });
const without = (attrs) => { const o = {}; for (const [k, v] of Object.entries(attrs)) if (v !== undefined && k !== "langfuse.internal.is_app_root" && k !== "langfuse.environment" && k !== "langfuse.release") o[k] = v; return o; };
module.exports = {
  assumptions: ["the mask terminates; what it returns is a function of its input", "spans are sampled and pass the export filter"],
  harnesses: [
    {
      name: "every maskable attribute", bounds: "one attribute under test (of 8 kinds, per-key metadata with a symbolic key of up to 2 units, symbolic value of up to 2 units) whose mask returns, resolves, throws, rejects, or returns an object, an empty text, null or zero, next to a second attribute with any of the 5 outcomes and six attributes that must stay; immediate or batched export",
      quick: { cases: NAMES.map((n, i) => ({ n, m: NAMES[(i + 3) % 8] })) }, thorough: { cases: NAMES.flatMap((n) => NAMES.filter((m) => m !== n).map((m) => ({ n, m }))) },
      run: async (h) => {
        const L = h.require("./lib.js"); const { n, m } = h.params; const how = {}, calls = [], exported = [];
        how[n] = h.pick("how", [0, 1, 2, 3, 4, 6, 7, 8, 9]); how[m] = h.choice("how2", 5);
        const batched = h.flag("batched");
        const o = L.otel(h, { exporter: snapshotExporter(exported), params: { mask: makeMask(h, how, calls), exportMode: batched ? "batched" : "immediate" } });
        const key = (x) => (x === "metak" ? A.meta + "." + h.string("mk", { min: 1, max: 2 }) : x === "tmetak" ? A.tmeta + "." + h.string("tk", { min: 1, max: 2 }) : A[x]);
        const attrs = Object.assign({}, OTHER), exp = Object.assign({}, OTHER), vals = [];
        for (const x of [n, m]) { const k = key(x), v = x + ":" + h.string("v-" + x, { max: 2 }); attrs[k] = v; exp[k] = result(x, how[x]); vals.push(v); }
        const span = o.tracer.startSpan("s", { attributes: attrs }); span.end();
        const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled", "flush resolves");
        h.assert(exported.length === 1, "exported once"); h.observe("exported", without(exported[0]));
        h.assert(h.eq(without(exported[0]), exp), "masked values and nothing else changed");
        for (const v of vals) h.assert(h.or(calls.map((c) => h.eq(c, v))), "mask sees the value");
      },
    },
    {
      name: "nothing leaves before the mask answered", bounds: "two attributes with pending asynchronous masks answered in either order, the first succeeding or failing, mask configured as symbolic; flush pending meanwhile",
      quick: { cases: [{ n: "in", m: "metak" }, { n: "tmetak", m: "out" }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const { n, m } = h.params; const exported = [], gates = {}; gates[n] = h.deferred(); gates[m] = h.deferred();
        const o = L.otel(h, { exporter: snapshotExporter(exported), params: { mask: makeMask(h, { [n]: 5, [m]: 5 }, [], gates), exportMode: h.flag("batched") ? "batched" : "immediate" } });
        const key = (x) => (x === "metak" ? A.meta + ".k" : x === "tmetak" ? A.tmeta + ".k" : A[x]);
        const span = o.tracer.startSpan("s", { attributes: { [key(n)]: n + ":secret", [key(m)]: m + ":secret" } }); span.end();
        const p = o.processor.forceFlush(); await h.tick(); h.assert(exported.length === 0, "not exported before any mask answered");
        const order = h.flag("order") ? [n, m] : [m, n]; const fail = h.flag("fail");
        gates[order[0]].resolve("gated(" + order[0] + ")"); await h.tick(); h.assert(exported.length === 0, "not exported before both masks answered");
        if (fail) gates[order[1]].reject(new Error("mask")); else gates[order[1]].resolve("gated(" + order[1] + ")");
        const r = await h.settle(p); h.assert(r.status === "fulfilled" && exported.length === 1, "flushed");
        h.assert(exported[0][key(order[0])] === "gated(" + order[0] + ")" && exported[0][key(order[1])] === (fail ? FULL : "gated(" + order[1] + ")"), "masked");
      },
    },
    {
      name: "several metadata keys", bounds: "the whole-metadata attribute (present or not) and three per-key metadata attributes set in any order, observation- or trace-level, each of whose masks returns, resolves, throws or rejects; values of up to 1 symbolic unit (empty included); plus 40 keys with one failing (concrete)",
      quick: { cases: [{ t: A.meta }, { t: A.tmeta }, { t: A.meta, many: 1 }, { t: A.tmeta, many: 1 }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const { t, many } = h.params; const exported = [], how = {}; const fail = {}; let ks = many ? Array.from({ length: 40 }, (x, i) => "k" + ((i * 7) % 40)) : h.pick("order", [["c", "a", "b"], ["a", "b", "c"], ["b", "a.z", "a"], ["a", "B", "_"]]);
        const vals = {}; ks.forEach((k, i) => { vals[t + "." + k] = many ? "v" + k : i === 0 ? h.string("v", { max: 1 }) : "v" + k; how[t + "." + k] = many ? 0 : h.choice("how" + i, 4); }); if (many) how[t + "." + ks[h.pick("bad", [0, 17, 39])]] = h.pick("badhow", [2, 3]);
        if (h.flag("whole")) { vals[t] = "whole"; how[t] = many ? 0 : h.choice("howw", 2); }
        const all = Object.entries(vals); const mask = ({ data }) => { const e = all.find(([k, v]) => v === data); const w = how[e[0]]; const r = "m(" + e[0] + ")"; if (w === 2) throw new Error("mask"); if (w === 3) return Promise.reject("mask"); return w === 1 ? Promise.resolve(r) : r; };
        if (!many) h.assume(h.and(all.slice(1).map(([k, v]) => h.not(h.eq(v, all[0][1])))));
        const o = L.otel(h, { exporter: snapshotExporter(exported), params: { mask } }); const span = o.tracer.startSpan("s", { attributes: vals }); span.end();
        const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled" && exported.length === 1, "flushed");
        const exp = {}; for (const [k] of all) exp[k] = how[k] >= 2 ? FULL : "m(" + k + ")"; h.assert(h.eq(without(exported[0]), exp), "every key has its own masked value");
      },
    },
    {
      name: "spans of every kind", bounds: "each of ten observation types, error, ok or unset status, each OpenTelemetry kind, root, child or remote child, default or debug logging, with an input of up to 1 symbolic unit (empty included), a number, a boolean or a list, and an output whose mask may fail; attributes set at start or later",
      quick: { cases: ["span", "generation", "event", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding"].map((type) => ({ type })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const exported = [], calls = []; const vk = h.choice("vk", 4); const v = vk === 0 ? h.string("v", { max: 1 }) : [0, false, ["a", "b"]][vk - 1]; const bad = h.flag("bad");
        const o = L.otel(h, { exporter: snapshotExporter(exported), params: { mask: ({ data }) => { calls.push(data); if (data === "OUT") { if (bad) throw new Error("x"); return "o"; } return "masked"; }, exportMode: h.flag("batched") ? "batched" : "immediate" } });
        const st = h.choice("status", 3), shape = h.choice("shape", 4); let ctx = o.api.ROOT_CONTEXT; if (shape === 1) ctx = o.api.trace.setSpan(ctx, o.start("parent")); if (shape === 2) ctx = o.api.trace.setSpanContext(ctx, { traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b7169203331", traceFlags: 1, isRemote: true });
        const attrs = { [A.in]: v, [A.out]: "OUT", "langfuse.observation.type": h.params.type, "langfuse.observation.level": st === 2 ? "ERROR" : "DEFAULT" }; const span = o.tracer.startSpan("s", shape === 3 ? { kind: 2 } : { kind: shape, attributes: attrs }, ctx); if (shape === 3) span.setAttributes(attrs); if (st) span.setStatus({ code: st, message: "m" }); span.end();
        const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled" && exported.length === 1, "flushed");
        h.assert(h.eq(without(exported[0]), Object.assign({}, attrs, { [A.in]: "masked", [A.out]: bad ? FULL : "o" })), "masked"); h.assert(calls.length === 2 && h.or(calls.map((c) => h.eq(c, v))), "the mask sees the value");
      },
    },
    {
      name: "concurrent spans", bounds: "two spans, each with two attributes, whose asynchronous masks are answered under every interleaving, one of them failing or none, the second span ended before or between; the same value in both spans in one case",
      quick: { cases: [{ same: 0 }, { same: 1 }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const exported = [], gates = []; const o = L.otel(h, { exporter: { export: (spans, cb) => { for (const s of spans) exported.push({ name: s.name, a: Object.assign({}, s.attributes) }); cb({ code: 0 }); }, shutdown: () => Promise.resolve(), forceFlush: () => Promise.resolve() }, params: { mask: ({ data }) => { const d = h.deferred(); d.data = data; gates.push(d); return d.promise; } } });
        const val = (i, f) => (h.params.same ? "v" + f : "v" + i + f); const spans = [0, 1].map((i) => o.tracer.startSpan("s" + i, { attributes: { [A.in]: val(i, "in"), [A.out]: val(i, "out") } })); const badStep = h.choice("bad", 5); const done = []; const give = {}; let n = 0;
        spans[0].end(); let ended = false; await h.tick();
        for (let k = 0; k < 6; k++) { const open = gates.filter((g) => !g.done); const opts = open.length + (ended ? 0 : 1); if (!opts) break; const c = h.choice("step" + k, opts); if (c === open.length) { spans[1].end(); ended = true; await h.tick(); continue; } const g = open[c]; g.done = true; g.bad = n === badStep; g.out = g.bad ? FULL : "r" + n; n++; if (g.bad) g.reject(new Error("mask")); else g.resolve(g.out); await h.tick(); }
        const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled" && exported.length === 2, "flushed"); const outs = [];
        for (const e of exported) for (const f of ["in", "out"]) { const got = e.a[f === "in" ? A.in : A.out]; outs.push(got); h.assert(gates.some((g) => g.data === val(Number(e.name[1]), f) && g.out === got), e.name + " " + f + " has a mask result for its own value"); }
      },
    },
    {
      name: "media of masked values", bounds: "an input holding a data URI, masked away, kept, replaced by another data URI, or failing; media upload enabled; input, output or per-key metadata",
      quick: { cases: [{ k: A.in }, { k: A.out }, { k: A.meta + ".k" }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const ups = [], exported = []; const w = h.choice("mask", 4);
        h.api(() => ({ media: { getUploadUrl: (r) => { ups.push(r); return Promise.resolve({ uploadUrl: null, mediaId: "x" }); }, patch: () => Promise.resolve() } }));
        const uri = "data:image/png;base64,AAAA", other = "data:image/png;base64,BBBB";
        const o = L.otel(h, { exporter: snapshotExporter(exported), params: { mediaUploadEnabled: true, mask: ({ data }) => { if (w === 0) return "gone"; if (w === 1) return data; if (w === 2) return other; throw new Error("x"); } } });
        const span = o.tracer.startSpan("s", { attributes: { [h.params.k]: uri } }); span.end();
        const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled" && exported.length === 1, "flushed");
        h.assert(ups.length === (w === 1 || w === 2 ? 1 : 0), "only masked content is uploaded"); if (w === 2) h.assert(ups[0].sha256Hash !== undefined, "hash");
        h.assert(!String(exported[0][h.params.k]).includes("base64,"), "no media content left");
        if (w === 2) { const c = h.require("@langfuse/core"); const m1 = await new c.LangfuseMedia({ source: "base64_data_uri", base64DataUri: other }).getSha256Hash(); h.assert(ups[0].sha256Hash === m1, "the uploaded content is the mask's"); }
      },
    },
  ],
};
