"use strict";
const { otel, client } = require("./lib.js");
const byId = (l, id) => l.filter((s) => s.spanContext().spanId === id);
module.exports = {
  assumptions: ["items have a defined input and maxConcurrency is at least 1", "run evaluations are recorded for runs linked to a dataset run; other runs have no target to attach them to"],
  harnesses: [
    {
      name: "schedules", bounds: "3 (quick) / 4 items, concurrency 1..3 or default, every order in which the running tasks finish, each task succeeding, rejecting or throwing at once",
      quick: { cases: [1, 2, 3, 0].map((c) => ({ n: 3, c })) }, thorough: { cases: [1, 2, 3, 0].map((c) => ({ n: 4, c })), timeS: 840 }, mustReach: ["failed", "all done"],
      run: async (h) => {
        const P = h.params; const o = otel(h); const { client: lf } = client(h); const data = []; for (let i = 0; i < P.n; i++) data.push({ input: "in" + i, expectedOutput: "exp" + i, metadata: { i } });
        const calls = [], running = []; const outcome = data.map((d, i) => h.choice("o" + i, 3)); let max = 0;
        const task = (item) => { const i = data.indexOf(item); calls.push(i); h.assert(i >= 0, "the task gets the item itself"); if (outcome[i] === 2) { h.reach("failed"); throw new Error("sync " + i); } const d = h.deferred(); running.push({ i, d }); if (running.length > max) max = running.length; return d.promise; };
        const p = lf.experiment.run({ name: "e", data: h.freeze(data), task, ...(P.c ? { maxConcurrency: P.c } : {}) }); await h.tick();
        for (let k = 0; k < P.n && running.length; k++) { const r = running.splice(h.choice("next" + k, running.length), 1)[0]; if (outcome[r.i] === 0) r.d.resolve("out" + r.i); else { h.reach("failed"); r.d.reject(h.pick("err" + r.i, [new Error("x"), "text", undefined])); } await h.tick(); }
        const st = await h.settle(p, { timers: true }); h.assert(st.status === "fulfilled", "the run finishes"); if (st.status !== "fulfilled") return; h.reach("all done");
        h.assert(h.eq(calls.slice().sort(), data.map((d, i) => i)), "every item once"); h.assert(!P.c || max <= P.c, "at most the configured number in flight");
        const want = data.map((d, i) => i).filter((i) => outcome[i] === 0); const res = st.value.itemResults;
        h.assert(h.eq(res.map((r) => r.output), want.map((i) => "out" + i)), "one result per succeeded item, in order"); h.assert(res.every((r, k) => r.item === data[want[k]] && r.expectedOutput === "exp" + want[k] && r.input === "in" + want[k] && r.evaluations.length === 0), "each with its own item and expected output");
        // the recorded span of each item
        await o.provider.forceFlush(); for (const r of res) { const l = o.exported.filter((s) => s.spanContext().traceId === r.traceId); h.assert(l.length === 1, "one span per item"); if (l.length === 1) { const a = l[0].attributes; h.assert(a["langfuse.observation.input"] === r.input && a["langfuse.observation.output"] === r.output && a["langfuse.experiment.item.expected_output"] === r.expectedOutput, "the item's own values are recorded"); } }
      },
    },
    {
      name: "many items", bounds: "49..51, 101 and 120 items with default, 1, 7, 50 or 100 in flight, every seventh failing (concrete sizes)", quick: { cases: [{ n: 50 }, { n: 101 }, { n: 120 }] },
      run: async (h) => {
        otel(h); const { client: lf } = client(h); const n = h.params.n === 50 ? 49 + h.choice("d", 3) : h.params.n, c = h.pick("c", [undefined, 7, 50, 100]); const data = Array.from({ length: n }, (x, i) => ({ input: i })); let now = 0, max = 0; const calls = [], fails = (i) => i % 7 === 3;
        const st = await h.settle(lf.experiment.run({ name: "e", data, ...(c ? { maxConcurrency: c } : {}), task: async (it) => { calls.push(it.input); now++; if (now > max) max = now; await Promise.resolve(); now--; if (fails(it.input)) throw new Error("x"); return "o" + it.input; }, evaluators: [async (p) => ({ name: "v", value: p.input })] }), { timers: true });
        h.assert(st.status === "fulfilled", "the run finishes"); if (st.status !== "fulfilled") return; h.assert(calls.length === n && new Set(calls).size === n, "every item once"); h.assert(max <= (c || 50), "at most the configured number in flight"); const want = data.filter((d) => !fails(d.input)); h.assert(st.value.itemResults.length === want.length && st.value.itemResults.every((r, i) => r.item === want[i] && r.output === "o" + want[i].input && r.evaluations.length === 1 && r.evaluations[0].value === want[i].input), "one result per succeeded item, in order, with its own output and evaluation");
      },
    },
    {
      name: "evaluations and scores", bounds: "2 items with an evaluator each returning one or several evaluations, nothing, rejecting or throwing, plus a second evaluator; symbolic evaluation name (up to 2 units) and value; items of a dataset (linking succeeds or fails) or local ones; up to two run evaluators, succeeding or failing",
      quick: { cases: [{ ds: true }, { ds: false }] }, mustReach: ["scored"],
      run: async (h) => {
        const o = otel(h); const links = []; const ds = h.params.ds; const linkOk = [ds && h.flag("link0"), ds && h.flag("link1")];
        const { client: lf, scores } = client(h, { datasetRunItems: { create: (r) => { links.push(r); const i = r.datasetItemId === "id0" ? 0 : 1; return linkOk[i] ? Promise.resolve({ datasetRunId: "run" }) : Promise.reject(new Error("no link")); } } });
        const data = [0, 1].map((i) => (ds ? { id: "id" + i, datasetId: "ds", input: { q: i }, expectedOutput: "e" + i, metadata: { m: i } } : { input: { q: i }, expectedOutput: "e" + i, metadata: { m: i } }));
        const nm = h.string("nm", { max: 2 }), val = h.int("val", -5, 5); const seen = [];
        const kind = [h.choice("k0", 5), h.choice("k1", 5)]; const mk = { 0: (i) => [{ name: nm, value: val + i }], 1: (i) => [{ name: "a", value: i ? "" : "v", comment: i ? "" : "c" }, { name: nm, value: i, metadata: { i }, dataType: "NUMERIC" }], 2: () => [], 3: null, 4: null };
        const ev1 = (p) => { const i = p.input.q; seen.push(p); if (kind[i] === 4) throw new Error("sync"); if (kind[i] === 3) return Promise.reject(new Error("eval")); const l = mk[kind[i]](i); return Promise.resolve(l.length === 1 ? l[0] : l); };
        const ev2 = async (p) => ({ name: "second", value: p.input.q });
        const rk = h.choice("rk", 4); const runEv = [async ({ itemResults }) => ({ name: "count", value: itemResults.length }), async () => { throw new Error("r"); }, async () => [{ name: nm, value: val }, { name: "x", value: "", comment: "" }, { name: "", value: false, metadata: { z: 0 }, dataType: "BOOLEAN" }]];
        const runEvaluators = rk === 0 ? undefined : rk === 1 ? [runEv[0]] : rk === 2 ? [runEv[1], runEv[2]] : [runEv[0], runEv[1]];
        const st = await h.settle(lf.experiment.run({ name: "e", runName: "rn", description: "d", metadata: { x: 1 }, data, task: async (it) => "out" + it.input.q, evaluators: [ev1, ev2], runEvaluators }), { timers: true });
        h.assert(st.status === "fulfilled", "the run finishes"); if (st.status !== "fulfilled") return; const r = st.value;
        const want = [0, 1].map((i) => [...(mk[kind[i]] ? mk[kind[i]](i) : []), { name: "second", value: i }]);
        h.assert(r.itemResults.length === 2, "both items"); [0, 1].forEach((i) => { h.assert(h.eq(r.itemResults[i].evaluations, want[i]), "the item's own evaluations; a failing evaluator drops only its own"); });
        h.assert(seen.length === 2 && seen.every((p) => h.eq(p, { input: { q: p.input.q }, expectedOutput: "e" + p.input.q, output: "out" + p.input.q, metadata: { m: p.input.q } })), "evaluators see their item");
        const wantRun = rk === 0 ? [] : rk === 1 || rk === 3 ? [{ name: "count", value: 2 }] : [{ name: nm, value: val }, { name: "x", value: "", comment: "" }, { name: "", value: false, metadata: { z: 0 }, dataType: "BOOLEAN" }]; h.assert(h.eq(r.runEvaluations, wantRun), "run evaluations");
        const linked = linkOk[0] || linkOk[1]; h.assert(r.datasetRunId === (linked ? "run" : undefined), "dataset run id"); h.assert(r.datasetRunUrl === (linked ? "https://lf.example/project/proj/datasets/ds/runs/run" : undefined), "dataset run url");
        if (!ds) h.assert(links.length === 0, "local items are not linked"); if (ds) { h.assert(links.length === 2, "each item linked once"); for (const l of links) { const i = l.datasetItemId === "id0" ? 0 : 1; h.assert(l.runName === "rn" && l.runDescription === "d" && h.eq(l.metadata, { x: 1 }) && l.datasetItemId === "id" + i && l.traceId === r.itemResults[i].traceId, "linked to its own trace"); } }
        // every evaluation has exactly one score with the same content and the right target
        await o.provider.forceFlush(); h.reach("scored"); let n = 0;
        [0, 1].forEach((i) => { const tid = r.itemResults[i].traceId; const root = o.exported.filter((s) => s.spanContext().traceId === tid && s.name === "experiment-item-run"); h.assert(root.length === 1, "root span"); const mine = scores.filter((s) => s.traceId === tid); n += mine.length; h.assert(h.eq(mine.map((s) => { const c = Object.assign({}, s); delete c.id; return c; }), want[i].map((e) => Object.assign({ traceId: tid, observationId: root[0] && root[0].spanContext().spanId }, e))), "item scores"); });
        const rs = scores.filter((s) => s.datasetRunId !== undefined); n += rs.length; h.assert(h.eq(rs.map((s) => { const c = Object.assign({}, s); delete c.id; return c; }), linked ? wantRun.map((e) => Object.assign({ datasetRunId: "run" }, e)) : []), "run scores"); h.assert(n === scores.length, "no other score");
      },
    },
    {
      name: "item values", bounds: "one item (local or of a dataset) of which the input, the expected output, the task output or the metadata is absent, falsy, structured or a symbolic text of up to 2 units",
      quick: { cases: [{ ds: true }, { ds: false }] },
      run: async (h) => {
        const o = otel(h); const ds = h.params.ds; const links = []; const { client: lf, scores } = client(h, { datasetRunItems: { create: (r) => { links.push(r); return Promise.resolve({ datasetRunId: "run" }); } } }); const s = h.string("s", { max: 2, bmp: true });
        const odd = (n) => h.pick(n, [undefined, null, 0, false, s, { a: [s, null] }, []]); const vary = h.choice("vary", 4); const input = vary === 0 ? h.pick("in", [s, 0, false, null, { q: s }]) : "i", exp = vary === 1 ? odd("exp") : "e", out = vary === 2 ? odd("out") : "o", md = vary === 3 ? h.pick("md", [undefined, {}, { k: s, f: false }]) : { k: 1 };
        const item = Object.assign({ input }, h.flag("hasExp") ? { expectedOutput: exp } : {}, md === undefined ? {} : { metadata: md }, ds ? { id: "i1", datasetId: "d1" } : {}); const want = "expectedOutput" in item ? exp : undefined; const before = h.clone(item); let got, ev;
        const st = await h.settle(lf.experiment.run({ name: "e", runName: "rn", data: [item], task: async (it) => { got = it; return out; }, evaluators: [async (p) => { ev = p; return { name: "n", value: 0 }; }] }), { timers: true });
        h.assert(st.status === "fulfilled" && st.value.itemResults.length === 1, "the run finishes"); if (st.status !== "fulfilled" || st.value.itemResults.length !== 1) return; const r = st.value.itemResults[0];
        h.assert(got === item && h.eq(item, before), "the task gets the item, unchanged"); h.assert(!!ev && h.eq({ i: ev.input, e: ev.expectedOutput, o: ev.output, m: ev.metadata }, { i: input, e: want, o: out, m: md }), "the evaluator sees exactly the item's values and the task's output");
        h.assert(h.eq({ i: r.input, e: r.expectedOutput, o: r.output }, { i: input, e: want, o: out }) && r.item === item, "and so does the result"); h.assert(h.eq(r.evaluations, [{ name: "n", value: 0 }]) && scores.length === 1 && scores[0].value === 0 && scores[0].traceId === r.traceId, "zero-valued evaluations are kept and scored");
        h.assert(links.length === (ds ? 1 : 0), "linked if and only if it belongs to a dataset");
        await o.provider.forceFlush(); const a = (o.exported.filter((x) => x.spanContext().traceId === r.traceId && x.name === "experiment-item-run")[0] || {}).attributes || {}; const ser = (v) => (v === undefined || v === null ? undefined : typeof v === "string" ? v : JSON.stringify(v));
        h.assert(h.eq(a["langfuse.observation.output"], ser(out)), "recorded output"); h.assert(h.eq(a["langfuse.observation.input"], ser(input)), "recorded input");
      },
    },
    {
      name: "report", bounds: "3 items, each succeeding or failing, dataset or local items, each with no evaluation, a text or a number from a small set; the printed report with and without item results",
      quick: { cases: [{ ds: true }, { ds: false }] },
      run: async (h) => {
        otel(h); const ds = h.params.ds; const { client: lf } = client(h, { datasetRunItems: { create: () => Promise.resolve({ datasetRunId: "run" }) } }); const ok = [0, 1, 2].map((i) => h.flag("ok" + i));
        const data = [0, 1, 2].map((i) => Object.assign({ input: "IN<" + i + ">", expectedOutput: "EXP<" + i + ">" }, ds ? { id: "item" + i, datasetId: "ds" } : {})); const v = [0, 1, 2].map((i) => h.pick("v" + i, [0, 2.5, "txt", undefined]));
        const st = await h.settle(lf.experiment.run({ name: "NAME", runName: "RUN", data, task: async (it) => { const i = data.indexOf(it); if (!ok[i]) throw new Error("x"); return "OUT<" + i + ">"; }, evaluators: [async (p) => { const x = v[Number(p.input[3])]; return x === undefined ? [] : { name: "acc", value: x, comment: "C" + p.input }; }], runEvaluators: [async () => ({ name: "overall", value: "good" })] }), { timers: true });
        h.assert(st.status === "fulfilled", "the run finishes"); const full = await st.value.format({ includeItemResults: true }), brief = await st.value.format(); const done = [0, 1, 2].filter((i) => ok[i]); h.observe("full", full);
        if (!done.length) { h.assert(!/OUT<|IN<|EXP</.test(full + brief), "nothing to report"); return; }
        let at = 0; for (const i of done) { const marks = ["IN<" + i + ">", "EXP<" + i + ">", "OUT<" + i + ">"]; if (v[i] !== undefined) marks.push("acc: " + (typeof v[i] === "number" ? v[i].toFixed(3) : v[i]), "CIN<" + i + ">"); if (ds) marks.push("items/item" + i); marks.push("traces/" + st.value.itemResults[done.indexOf(i)].traceId); for (const m of marks) { const k = full.indexOf(m, at); h.assert(k >= 0, "each result is printed with its own item: " + m); if (k < 0) return; at = k; } }
        for (const i of [0, 1, 2]) if (!ok[i]) h.assert(!full.includes("IN<" + i + ">") && !full.includes("EXP<" + i + ">"), "failed items are left out");
        const nums = done.map((i) => v[i]).filter((x) => typeof x === "number"); const avg = nums.length ? (nums.reduce((a, b) => a + b, 0) / nums.length).toFixed(3) : undefined;
        for (const t of [full, brief]) { h.assert(t.includes("NAME") && t.includes("RUN") && t.includes(done.length + " items") && t.includes("overall: good"), "summary"); const k = t.indexOf("Average"); h.assert(avg === undefined ? k < 0 || !t.slice(k).includes("acc: ") : k >= 0 && t.slice(k).includes("acc: " + avg), "the average is over the numeric scores"); }
        h.assert(!brief.includes("OUT<"), "item results only on request");
      },
    },
    {
      name: "report values", bounds: "one item whose input, expected output and output are texts (up to 60 characters, empty included), zero, false, null or structured; the line after each label shows that value",
      quick: {},
      run: async (h) => {
        otel(h); const { client: lf } = client(h); const vals = ["t", "", 0, false, { a: 1 }, [0], "x".repeat(49)]; const w = h.choice("w", 3); const v = h.pick("v", vals); const item = { input: w === 0 ? v : "IN", expectedOutput: w === 1 ? v : "EXP" }; const out = w === 2 ? v : "OUT"; const st = await h.settle(lf.experiment.run({ name: "NAME", runName: "RUN", data: [item], task: async () => out, evaluators: [async () => [{ name: "", value: 0 }, { name: "b", value: false, comment: "" }]] }), { timers: true }); const full = await st.value.format({ includeItemResults: true }); const show = (x) => (typeof x === "string" ? x : JSON.stringify(x));
        const line = (label) => { const l = full.split("\n").find((x) => x.trim().startsWith(label)); return l === undefined ? undefined : l.trim().slice(label.length).trim(); }; for (const [label, x] of [["Input:", item.input], ["Expected:", item.expectedOutput], ["Actual:", out]]) { const l = line(label); if (l !== undefined) h.assert(l === show(x), label + " shows the item's own value"); } h.assert(full.includes("false"), "boolean scores are shown");
      },
    },
  ],
};
