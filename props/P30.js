"use strict";
const { otel, client } = require("./lib.js");
const absent = Symbol("absent");
const put = (o, k, v) => { if (v !== absent) o[k] = v; return o; };
const or = (v, d) => (v === absent || v === undefined || v === null ? d : v);
module.exports = {
  assumptions: ["metadata are plain objects", "AutoEvals evaluators follow the library's interface: an object parameter and a score object"],
  harnesses: [
    {
      name: "defaults of the runner context", bounds: "data, dataset version and metadata each absent, undefined, empty or given (symbolic texts of up to 2 units, overlapping metadata keys) on the context, on the call, on both or on neither; the other parameters passed along; the run succeeding or failing",
      quick: { cases: [{ m: "data" }, { m: "version" }, { m: "metadata" }] }, mustReach: ["ran"],
      run: async (h) => {
        const m = h.params.m; const { RunnerContext } = h.require("@langfuse/client"); const calls = []; const ok = h.flag("ok"), err = new Error("x"), result = { r: 1 }; const cl = { experiment: { run: (p) => { calls.push(p); return ok ? Promise.resolve(result) : Promise.reject(err); } } };
        const D1 = [{ input: 1 }], D2 = [{ input: 2 }, { input: 3 }]; const s = (n) => h.string(n, { max: 2, bmp: true }); const vals = { data: (n) => h.pick(n, [absent, undefined, [], n === "c" ? D1 : D2]), version: (n) => h.pick(n, [absent, undefined, s("v" + n)]), metadata: (n) => h.pick(n, [absent, undefined, {}, n === "c" ? { both: s("mc"), ctx: false } : { both: s("mp"), call: null }]) };
        const c = vals[m]("c"), p = vals[m]("p"); const ctx = { client: cl }, call = { name: s("name"), task: () => 1, maxConcurrency: 2, evaluators: [], runName: "rn", description: "d" }; const key = { data: "data", version: "datasetVersion", metadata: "metadata" }[m]; if (m !== "data") ctx.data = D1; put(ctx, key, c); put(call, key, p); const before = Object.assign({}, call), ctxMeta = c && c !== absent && m === "metadata" ? Object.assign({}, c) : undefined;
        const rc = new RunnerContext(ctx); const st = await h.settle(h.attempt(() => rc.runExperiment(call)).value); h.assert(Object.keys(before).every((k) => before[k] === call[k]) && Object.keys(call).length === Object.keys(before).length, "the caller's parameters are not changed"); if (ctxMeta) h.assert(h.eq(rc.metadata, ctxMeta), "nor the context");
        if (m === "data" && or(p, undefined) === undefined && or(c, undefined) === undefined) { h.assert(calls.length === 0 && st.status === "rejected", "without data nothing is run"); return; }
        h.reach("ran"); h.assert(calls.length === 1, "one run"); const g = calls[0]; h.assert(g.data === (m === "data" ? or(p, or(c, undefined)) : D1), "data of the call, else of the context"); h.assert(h.eq(g.datasetVersion, m === "version" ? or(p, or(c, undefined)) : undefined), "dataset version of the call, else of the context");
        const none = or(p, undefined) === undefined && or(c, undefined) === undefined; h.assert(h.eq(g.metadata, m !== "metadata" || none ? undefined : Object.assign({}, or(c, {}), or(p, {}))), "metadata of both, the call's winning"); for (const k of ["name", "task", "maxConcurrency", "evaluators", "runName", "description"]) h.assert(h.eq(g[k], call[k]), "the other parameters are passed along"); h.assert(Object.keys(g).every((k) => k in call || ["data", "datasetVersion", "metadata"].includes(k)), "and no others");
        h.assert(ok ? st.status === "fulfilled" && st.value === result : st.status === "rejected" && st.reason === err, "the run's result or error");
      },
    },
    {
      name: "a whole run through the context", bounds: "one item, context and call metadata, dataset version; recorded on the dataset run item and the trace", quick: {},
      run: async (h) => {
        const o = otel(h); const links = []; const { client: lf } = client(h, { datasetRunItems: { create: (r) => { links.push(r); return Promise.resolve({ datasetRunId: "run" }); } } }); const { RunnerContext } = h.require("@langfuse/client"); const v = h.string("v", { min: 1, max: 2, ranges: [[48, 57]] }), who = h.flag("who"), x = h.string("x", { max: 1, bmp: true }); const rc = new RunnerContext({ client: lf, data: [{ id: "i1", datasetId: "d1", input: "in" }], metadata: { a: x, b: 1 }, ...(who ? { datasetVersion: v } : {}) });
        const st = await h.settle(rc.runExperiment({ name: "e", runName: "rn", task: async () => "o", metadata: { b: 2 }, ...(who ? {} : { datasetVersion: v }) }), { timers: true }); h.assert(st.status === "fulfilled" && st.value.itemResults.length === 1 && st.value.itemResults[0].output === "o", "the run"); h.assert(links.length === 1 && h.eq(links[0].metadata, { a: x, b: 2 }) && h.eq(links[0].datasetVersion, v), "merged metadata and version are recorded");
      },
    },
    {
      name: "regression errors", bounds: "message (symbolic, up to 2 units), metric (symbolic, up to 2 units), value (symbolic integer -5..5 or a fraction) and threshold each absent, undefined or given, zero among them", quick: {},
      run: async (h) => {
        const { RegressionError } = h.require("@langfuse/client"); const s = (n) => h.string(n, { max: 2, bmp: true }); const result = { r: 1 }; const p = { result }; const msg = h.pick("msg", [absent, undefined, s("m")]), metric = h.pick("metric", [absent, undefined, s("k")]), value = h.pick("value", [absent, undefined, h.int("v", -5, 5), 0.25]), th = h.pick("th", [absent, undefined, h.int("t", -5, 5), 0.5]); put(p, "message", msg); put(p, "metric", metric); put(p, "value", value); put(p, "threshold", th); const u = (x) => (x === absent ? undefined : x);
        const e = new RegressionError(h.freeze(p)); h.assert(e instanceof Error && e instanceof RegressionError && e.name === "RegressionError" && e.result === result, "an Error that carries the result"); h.assert(h.and(h.eq(e.metric, u(metric)), h.eq(e.value, u(value)), h.eq(e.threshold, u(th))), "and the figures given");
        if (u(msg) !== undefined) h.assert(h.eq(e.message, u(msg)), "the caller's message"); else if (u(metric) !== undefined && u(value) !== undefined) h.assert(h.eq(e.message, "Regression on `" + u(metric) + "`: " + String(u(value)) + (u(th) !== undefined ? " (threshold " + String(u(th)) + ")" : "")), "the metric, its value and threshold"); else h.assert(e.message.length > 0, "some message");
      },
    },
    {
      name: "autoevals", bounds: "symbolic input, output and expected texts (up to 2 units) or absent, extra parameters (absent, empty, given, clashing with the item's fields), score number (symbolic, zero), null or absent, metadata absent or given, evaluator resolving, returning or failing", quick: {},
      run: async (h) => {
        const { createEvaluatorFromAutoevals } = h.require("@langfuse/client"); const s = (n) => h.string(n, { max: 2, bmp: true }); const seen = []; const score = h.pick("score", [h.int("sc", -1, 2), 0, 0.5, null, undefined]), md = h.pick("md", [undefined, { why: s("why") }, null]), how = h.choice("how", 3), err = new Error("x"); const nm = s("nm"); const answer = { name: nm, score, metadata: md };
        const ev = (p) => { seen.push(p); if (how === 2) throw err; return how ? answer : Promise.resolve(answer); }; const params = h.pick("params", [undefined, {}, { model: s("model") }, { model: "m", input: "stale", output: "stale", expected: "stale" }]); const p0 = params && Object.assign({}, params); const item = { input: h.pick("in", [s("i"), { q: 1 }]), output: h.pick("out", [s("o"), undefined]), metadata: { z: 1 } }; const withE = h.flag("e"); if (withE) item.expectedOutput = s("ex");
        const f = params === undefined ? createEvaluatorFromAutoevals(ev) : createEvaluatorFromAutoevals(ev, params); const st = await h.settle(f(h.freeze(item))); h.assert(seen.length === 1, "called once"); h.assert(h.eq(seen[0], Object.assign({}, params && params.model !== undefined ? { model: params.model } : {}, { input: item.input, output: item.output, expected: withE ? item.expectedOutput : undefined })), "with the item's values and the extra parameters"); h.assert(h.eq(params, p0), "which are not changed");
        if (how === 2) { h.assert(st.status === "rejected" && st.reason === err, "a failure is the evaluator's"); return; } h.assert(st.status === "fulfilled" && h.eq({ n: st.value.name, v: st.value.value, m: st.value.metadata }, { n: nm, v: score === null || score === undefined ? 0 : score, m: md }), "its name, score and metadata"); h.assert(Object.keys(st.value).every((k) => ["name", "value", "metadata"].includes(k) || st.value[k] === undefined), "and nothing else");
      },
    },
  ],
};
