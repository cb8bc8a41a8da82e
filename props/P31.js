"use strict";
const { otel, client } = require("./lib.js");
const E = "langfuse.experiment.";
const experimentOf = (s) => { const out = {}; for (const [k, v] of Object.entries(s.attributes)) if (v !== undefined && k.startsWith(E)) out[k] = v; return out; };
const ser = (v) => (v === undefined || v === null ? undefined : typeof v === "string" ? v : JSON.stringify(v));
const clean = (o) => { const out = {}; for (const [k, v] of Object.entries(o)) if (v !== undefined && v !== "") out[k] = v; return out; };
module.exports = {
  assumptions: ["experiments do not nest", "experiment metadata, item metadata and identifiers that are empty texts count as absent", "item ids of local items are the ones P19 describes"],
  harnesses: [
    {
      name: "interleaved items", bounds: "2 (quick) / 3 items of a dataset or local, each linked or refused or never asked, concurrency 1..3; each task starts a span, pauses, starts another one (also by a wrapped function, a nested active observation or a scope that propagates other values) and succeeds or fails; every order of the resumptions",
      quick: { cases: [[2, 2], [2, 1]].flatMap(([n, c]) => [0, 1, 2, 3].map((how) => ({ n, c, how }))) }, thorough: { cases: [[3, 3], [3, 2], [3, 1]].flatMap(([n, c]) => [0, 1, 2, 3].map((how) => ({ n, c, how }))), timeS: 840 }, mustReach: ["resumed", "done", "failed"],
      run: async (h) => {
        const P = h.params; const o = otel(h); const T = h.require("@langfuse/tracing"); const ds = h.choice("ds", 2) === 0; const link = []; for (let i = 0; i < P.n; i++) link.push(ds && h.flag("link" + i));
        const { client: lf } = client(h, { datasetRunItems: { create: (r) => (link[Number(r.datasetItemId.slice(2))] ? Promise.resolve({ datasetRunId: "RUN" }) : Promise.reject(new Error("no"))) } });
        const data = []; for (let i = 0; i < P.n; i++) data.push(Object.assign({ input: "in" + i, expectedOutput: "exp" + i, metadata: { i } }, ds ? { id: "id" + i, datasetId: "D" } : {}));
        const fails = data.map((d, i) => h.flag("fail" + i)); const waiting = []; const mine = data.map(() => []); const started = (i, s) => mine[i].push(s.otelSpan ? s.otelSpan.spanContext().spanId : s);
        const more = (i) => {
          if (P.how === 0) { const s = T.startObservation("b" + i); started(i, s); s.end(); }
          else if (P.how === 1) T.observe(() => started(i, T.getActiveSpanId()), { name: "b" + i, asType: "tool" })();
          else if (P.how === 2) T.startActiveObservation("b" + i, (s) => { started(i, s); const c = s.startObservation("c" + i, {}, { asType: "generation" }); started(i, c); c.end(); });
          else T.propagateAttributes({ userId: "u", environment: "prod", metadata: { k: "v" } }, () => { const s = T.startObservation("b" + i); started(i, s); s.end(); });
        };
        const task = async (item) => { const i = data.indexOf(item); const a = T.startObservation("a" + i); started(i, a); a.end(); const d = h.deferred(); waiting.push(d); await d.promise; h.reach("resumed"); more(i); if (fails[i]) { h.reach("failed"); throw new Error("x"); } return "o" + i; };
        const p = lf.experiment.run({ name: "N", runName: "R", description: "DESC", metadata: { m: 1 }, data, task, maxConcurrency: P.c }); await h.tick();
        const outside = []; const look = (n) => { const s = T.startObservation(n); outside.push(s.otelSpan.spanContext().spanId); s.end(); }; look("outside");
        for (let k = 0; k < P.n && waiting.length; k++) { waiting.splice(h.choice("next" + k, waiting.length), 1)[0].resolve(); await h.tick(); look("between"); }
        const st = await h.settle(p, { timers: true }); h.assert(st.status === "fulfilled", "the run finishes"); if (st.status !== "fulfilled") return; h.reach("done"); look("after"); await o.provider.forceFlush(); const r = st.value;
        const roots = o.exported.filter((s) => s.name === "experiment-item-run"); h.assert(roots.length === P.n, "one root span per item");
        const anyLinked = link.some((x, i) => x && !fails[i]); h.assert(anyLinked ? r.experimentId === "RUN" : typeof r.experimentId === "string" && r.experimentId.length === 16, "the result's experiment id");
        data.forEach((d, i) => {
          const spans = mine[i].map((id) => o.exported.filter((s) => s.spanContext().spanId === id)[0]); h.assert(spans.length >= 2 && spans.every((s) => !!s), "the task's spans are exported"); if (!spans.every((s) => !!s)) return;
          const root = roots.filter((s) => s.spanContext().traceId === spans[0].spanContext().traceId)[0]; h.assert(!!root, "in the trace of the item's root span"); if (!root) return;
          const id = root.attributes[E + "id"]; h.assert(link[i] ? id === "RUN" : typeof id === "string" && (anyLinked || id === r.experimentId), "the experiment id is the dataset run's, else the run's own");
          const item = root.attributes[E + "item.id"]; h.assert(ds ? item === d.id : typeof item === "string" && item.length === 16, "the item id");
          const want = clean({ [E + "id"]: id, [E + "name"]: "R", [E + "metadata"]: "{\"m\":1}", [E + "dataset.id"]: ds ? "D" : undefined, [E + "item.id"]: item, [E + "item.metadata"]: JSON.stringify({ i }), [E + "item.root_observation_id"]: root.spanContext().spanId });
          for (const s of spans) { h.assert(h.eq(experimentOf(s), want), "every span of the task carries its own item's experiment"); h.assert(s.spanContext().traceId === root.spanContext().traceId, "in the item's trace"); h.assert(s.attributes["langfuse.environment"] === "sdk-experiment", "and the experiment environment"); if (P.how === 3 && s.name === "b" + i) h.assert(s.attributes["user.id"] === "u" && s.attributes["langfuse.trace.metadata.k"] === "v", "other propagated values still apply"); }
          h.assert(h.eq(experimentOf(root), Object.assign({}, want, { [E + "description"]: "DESC", [E + "item.expected_output"]: "exp" + i })), "so does the root span, with description and expected output"); if (P.how !== 3) h.assert(root.attributes["langfuse.environment"] === "sdk-experiment", "root environment");
        });
        const ids = data.map((d, i) => (o.exported.filter((s) => s.spanContext().spanId === mine[i][0])[0] || { attributes: {} }).attributes[E + "item.id"]); h.assert(new Set(ids).size === P.n, "different items, different ids");
        for (const id of outside) { const s = o.exported.filter((x) => x.spanContext().spanId === id)[0]; h.assert(!!s && Object.keys(experimentOf(s)).length === 0 && s.attributes["langfuse.environment"] === undefined, "spans outside the tasks carry no experiment"); }
      },
    },
    {
      name: "values", bounds: "one item; symbolic texts of up to 2 units for run name, description, dataset id, item id, version, metadata text; metadata absent, a text, an object or a list; expected output absent, null, falsy, text or structured; dataset version given or not; processor environment configured or not",
      quick: { cases: [{ ds: true }, { ds: false }] }, mustReach: ["linked", "local"],
      run: async (h) => {
        const ds = h.params.ds; const o = otel(h, { params: h.flag("env") ? { environment: "prod", release: "r1" } : {} }); const T = h.require("@langfuse/tracing"); const links = [];
        const { client: lf } = client(h, { datasetRunItems: { create: (r) => { links.push(r); return Promise.resolve({ datasetRunId: "RUN" }); } } }); const s = (n, min) => h.string(n, { min: min || 0, max: 2, bmp: true });
        const vary = h.choice("vary", 6); const runName = vary === 0 ? s("run", 1) : "R", desc = vary === 1 ? h.pick("desc", [undefined, s("descText")]) : "DESC", md = vary === 2 ? h.pick("md", [undefined, {}, { k: s("mdText"), n: 0, f: false }]) : { m: 1 }, imd = vary === 3 ? h.pick("imd", [undefined, null, {}, { k: s("imdText"), l: [1, null] }]) : { i: 1 }, exp = vary === 4 ? h.pick("exp", [undefined, null, 0, false, "", s("expText", 1), { a: [s("expIn")] }, []]) : "E", iid = vary === 5 ? s("iid", 1) : "I", did = vary === 5 ? s("did", 1) : "D", ver = vary === 5 ? h.pick("ver", [undefined, s("verText", 1)]) : undefined;
        const item = Object.assign({ input: "in" }, exp === undefined ? {} : { expectedOutput: exp }, imd === undefined ? {} : { metadata: imd }, ds ? { id: iid, datasetId: did } : {}); let child;
        const st = await h.settle(lf.experiment.run({ name: "N", runName, description: desc, metadata: md, data: [item], datasetVersion: ver, task: async () => { child = T.startObservation("child"); child.end(); return "o"; } }), { timers: true }); h.assert(st.status === "fulfilled" && st.value.itemResults.length === 1 && !!child, "the run finishes"); if (st.status !== "fulfilled" || !child) return; const r = st.value; await o.provider.forceFlush();
        h.assert(r.runName === runName, "run name"); h.reach(ds ? "linked" : "local"); const root = o.exported.filter((x) => x.name === "experiment-item-run")[0], c = o.exported.filter((x) => x.name === "child")[0]; h.assert(!!root && !!c, "both spans"); if (!root || !c) return; const item_id = root.attributes[E + "item.id"]; if (ds) h.assert(item_id === iid, "item id"); else h.assert(typeof item_id === "string" && item_id.length === 16, "local item id");
        h.assert(r.experimentId === root.attributes[E + "id"] && (ds ? r.experimentId === "RUN" : r.experimentId.length === 16), "experiment id");
        const want = clean({ [E + "id"]: r.experimentId, [E + "name"]: runName, [E + "metadata"]: ser(md), [E + "dataset.id"]: ds ? did : undefined, [E + "item.id"]: item_id, [E + "item.metadata"]: ser(imd), [E + "item.root_observation_id"]: root.spanContext().spanId });
        h.assert(h.eq(experimentOf(c), want), "the child's experiment attributes"); h.assert(h.eq(experimentOf(root), clean(Object.assign({}, want, { [E + "description"]: desc, [E + "item.expected_output"]: ser(exp) }))), "the root's experiment attributes"); h.assert(c.attributes["langfuse.environment"] === "sdk-experiment" && root.attributes["langfuse.environment"] === "sdk-experiment", "environment");
        h.assert(links.length === (ds ? 1 : 0), "linked once"); if (ds) { const l = links[0]; h.assert(h.eq({ n: l.runName, i: l.datasetItemId, t: l.traceId, o: l.observationId, m: l.metadata, v: l.datasetVersion, d: l.runDescription }, { n: runName, i: iid, t: root.spanContext().traceId, o: root.spanContext().spanId, m: md, v: ver, d: desc }), "the link names run, item, trace, observation, metadata and dataset version"); }
        const rm = {}; for (const [k, v] of Object.entries(root.attributes)) if (k.startsWith("langfuse.observation.metadata.")) rm[k.slice(30)] = v; const wantMd = {}; for (const [k, v] of Object.entries(Object.assign({}, imd || {}, md || {}, { experiment_name: "N", experiment_run_name: runName }, ds ? { dataset_id: did, dataset_item_id: iid } : {}))) wantMd[k] = ser(v); h.assert(h.eq(rm, wantMd), "the root's metadata: the item's, then the experiment's, then the names");
      },
    },
    {
      name: "run names", bounds: "no run name: clock any whole second of a day, experiment name a symbolic text of up to 2 units; a given run name; two runs of the same experiment", quick: { cases: [{}] },
      run: async (h) => {
        otel(h); const { client: lf } = client(h); const n = h.string("n", { min: 1, max: 2, bmp: true }), given = h.pick("given", [undefined, "", h.string("g", { min: 1, max: 2, bmp: true })]); h.setNow(h.pick("at", [0, 1767225599999, 1763424000000]));
        const run = () => h.settle(lf.experiment.run({ name: n, runName: given, data: [{ input: 1 }], task: async () => "o" }), { timers: true }); const t = h.now(); const a = await run(), b = await run(); h.assert(a.status === "fulfilled" && b.status === "fulfilled", "both finish"); if (a.status !== "fulfilled" || b.status !== "fulfilled") return;
        h.assert(a.value.runName === (given ? given : n + " - " + new Date(t).toISOString()), "the given run name, else the experiment's name and the time"); h.assert(a.value.experimentId !== undefined && a.value.datasetRunId === undefined && a.value.datasetRunUrl === undefined, "local runs have no dataset run");
      },
    },
  ],
};
