"use strict";
const { otel, client } = require("./lib.js");
const item = (id, over) => Object.assign({ id, datasetId: "ds", datasetName: "d", status: "ACTIVE", input: { q: id }, expectedOutput: "e" + id, metadata: { m: id } }, over || {});
const plain = (i) => { const c = Object.assign({}, i); delete c.link; return c; };
const ref = (field, jsonPath, id, over) => Object.assign({ field, jsonPath, referenceString: "@@@langfuseMedia:type=image/png|id=" + id + "|source=bytes@@@", media: { mediaId: id, contentType: "image/png", url: "https://m/" + id, urlExpiry: "2030", contentLength: 3 } }, over || {});
const isRef = (h, core, v, id) => v instanceof core.LangfuseMediaReference && v.mediaId === id && v.url === "https://m/" + id && v.contentType === "image/png" && v.contentLength === 3 && v.referenceString === "@@@langfuseMedia:type=image/png|id=" + id + "|source=bytes@@@";
const one = (h, it) => client(h, { datasets: { get: () => Promise.resolve({ id: "ds", name: "d" }) }, datasetItems: { list: () => Promise.resolve({ data: [it], meta: { totalPages: 1 } }) } }).client;
module.exports = {
  assumptions: ["JSON paths are the server's ($, ['key'] and [index]); keys containing \"']\" cannot be told apart in them", "values are JSON-like, media nested at most 20 levels deep"],
  harnesses: [
    {
      name: "pages", bounds: "0..3 pages of 0..2 items each; page size default or symbolic (1..100); with and without a version; a page may fail", quick: {}, mustReach: ["pages"],
      run: async (h) => {
        const np = h.choice("np", 4), size = h.flag("sized") ? h.int("size", 1, 100) : undefined, version = h.pick("version", [undefined, "2024-01-01"]); const pages = []; let n = 0; for (let p = 0; p < np; p++) { const l = []; const c = h.choice("c" + p, 3); for (let i = 0; i < c; i++) l.push(item("i" + n++)); pages.push(l); }
        const failing = np ? h.choice("fail", np + 1) : 0; const reqs = [];
        const { client: lf } = client(h, { datasets: { get: (nm) => Promise.resolve({ id: "ds", name: nm, description: "D" }) }, datasetItems: { list: (r) => { reqs.push(r); if (failing === r.page) return Promise.reject(new Error("page")); return Promise.resolve({ data: (pages[r.page - 1] || []).map((x) => h.clone(x)), meta: { totalPages: np, page: r.page } }); } } });
        const st = await h.settle(lf.dataset.get("d", Object.assign({}, size === undefined ? {} : { fetchItemsPageSize: size }, version ? { version } : {})));
        if (failing) { h.assert(st.status === "rejected", "an incomplete dataset is not returned"); return; }
        h.assert(st.status === "fulfilled", "returned"); h.reach("pages"); h.assert(h.eq(st.value.items.map(plain), pages.flat()), "every item of every page once, in order"); h.assert(h.eq(reqs.map((r) => r.page), np ? pages.map((p, i) => i + 1) : [1]), "each page read once");
        for (const r of reqs) h.assert(r.datasetName === "d" && h.eq(r.limit, size === undefined ? 50 : size) && r.version === version, "page request"); h.assert(st.value.id === "ds" && st.value.name === "d" && st.value.description === "D" && st.value.version === version, "dataset fields");
      },
    },
    {
      name: "references at existing paths", bounds: "a value with keys of up to 2 symbolic units (no \"']\"), nested objects and lists, in input, expected output or metadata; up to two references at its nodes, the root, or without media",
      quick: {},
      run: async (h) => {
        const core = h.require("@langfuse/core"); const k = h.string("k", { max: 2, bmp: true }), s = h.string("s", { max: 2 }); h.assume(h.and(h.not(k.includes("'")), h.not(h.eq(k, "z")), h.not(h.eq(k, "n")))); const field = h.pick("field", ["input", "expectedOutput", "metadata"]);
        const build = () => ({ [k]: ["R", { z: "R", w: s }], z: { [k]: "R", n: null } });
        const paths = ["$['" + k + "'][0]", "$['" + k + "'][1]['z']", "$['z']['" + k + "']", "$", null]; const w = h.choice("w", paths.length), w2 = h.choice("w2", 4);
        const refs = []; if (paths[w] === null) refs.push(ref(field, "$['z']['" + k + "']", "m1", { media: null })); else refs.push(ref(field, paths[w], "m1")); const second = w2 < 3 && w2 !== w && w !== 3; if (second) refs.push(ref(field, paths[w2], "m2"));
        const it = item("a", { [field]: build(), mediaReferences: refs }); const lf = one(h, it); const st = await h.settle(lf.dataset.get("d")); h.assert(st.status === "fulfilled", "returned"); const got = st.value.items[0];
        const v = got[field]; const at = (i) => (i === 0 ? v[k][0] : i === 1 ? v[k][1].z : v.z[k]);
        if (w === 3) { h.assert(isRef(h, core, v, "m1"), "root replaced"); }
        else { const want = build(); for (let i = 0; i < 3; i++) { const id = w === i ? "m1" : second && w2 === i ? "m2" : undefined; if (id) h.assert(isRef(h, core, at(i), id), "the reference is at its path"); else h.assert(h.eq(at(i), "R"), "other nodes keep their value"); } h.assert(h.eq(v[k][1].w, s) && v.z.n === null && v[k].length === 2 && Object.keys(v).length === 2 && Object.keys(v.z).length === 2, "everything else unchanged"); }
        for (const f of ["input", "expectedOutput", "metadata"]) if (f !== field) h.assert(h.eq(got[f], item("a")[f]), "other fields unchanged"); h.assert(got.id === "a" && got.datasetId === "ds", "other item fields unchanged");
      },
    },
    {
      name: "references in long lists", bounds: "a list of 13 values, directly or nested; a reference at each index", quick: {},
      run: async (h) => {
        const core = h.require("@langfuse/core"); const i = h.choice("i", 13), deep = h.flag("deep"); const list = Array.from({ length: 13 }, (_, k) => "v" + k); const it = item("a", { input: deep ? { l: [["x"], list] } : list, mediaReferences: [ref("input", deep ? "$['l'][1][" + i + "]" : "$[" + i + "]", "m")] });
        const st = await h.settle(one(h, it).dataset.get("d")); h.assert(st.status === "fulfilled", "returned"); const v = deep ? st.value.items[0].input.l[1] : st.value.items[0].input; h.assert(v.length === 13 && v.every((x, k) => (k === i ? isRef(h, core, x, "m") : x === "v" + k)), "exactly the entry at the index");
      },
    },
    {
      name: "unresolvable references", bounds: "paths to missing keys and indexes, through values that are no containers, inherited names, wrong field names, and malformed paths (a good path with one unit replaced, removed or added); followed by a good reference",
      quick: {},
      run: async (h) => {
        const core = h.require("@langfuse/core"); const c = h.string("c", { max: 1, ascii: true }); const good = "$['a'][1]"; const k = h.choice("k", 14); let path = [ "$['b']", "$['a'][2]", "$['a'][1]['x']", "$['t'][0]", "$['n']['x']", "$['__proto__']['x']", "$['a']['length']['x']", "$['constructor']['x']", "$['toString']", "$[0]", "a", ""][k]; let field = "input";
        if (k === 12) { const i = h.choice("i", good.length); path = good.slice(0, i) + c + good.slice(i + 1); h.assume(h.not(h.eq(path, good))); h.assume(h.not(h.eq(path, "$['a'][0]"))); } if (k === 13) { path = "$['a'][0]"; field = h.pick("field", ["output", "constructor", ""]); }
        const build = () => ({ a: ["x", "y"], t: "text", n: null, g: "G" }); const it = item("a", { input: build(), mediaReferences: [ref(field, path, "bad"), ref("input", "$['g']", "good")] }); const lf = one(h, it); const st = await h.settle(lf.dataset.get("d")); h.assert(st.status === "fulfilled", "a bad reference does not fail the dataset"); if (st.status !== "fulfilled") return;
        const v = st.value.items[0].input; h.assert(isRef(h, core, v.g, "good"), "the good reference is placed"); const rest = Object.assign({}, v); delete rest.g; h.assert(h.eq(rest, { a: ["x", "y"], t: "text", n: null }) && ({}).x === undefined, "everything else unchanged"); h.assert(h.eq(st.value.items[0].expectedOutput, "ea") && st.value.items[0].output === undefined, "other fields unchanged");
      },
    },
    {
      name: "nesting of media", bounds: "a media object under 0..20 levels of objects, lists or both in turn, in input, expected output or metadata, next to a text of up to 2 symbolic units", quick: {},
      run: async (h) => {
        const core = h.require("@langfuse/core"); let id, puts = 0; const created = []; const { client: lf } = client(h, { datasets: { get: () => Promise.resolve({ id: "dsid" }) }, media: { getUploadUrl: async () => ({ uploadUrl: "https://up/x", mediaId: id }), patch: () => Promise.resolve() }, datasetItems: { create: (r) => { created.push(r); return Promise.resolve(r); } } }); h.onFetch(() => { puts++; return Promise.resolve({ status: 200, text: () => Promise.resolve("") }); });
        const m = new core.LangfuseMedia({ source: "bytes", contentBytes: h.bytes([1, 2]), contentType: "image/png" }); id = await m.getId(); const tag = await m.getTag(); const s = h.string("s", { max: 2 }), f = h.pick("f", ["input", "expectedOutput", "metadata"]), d = h.choice("d", 21), kind = h.choice("kind", 3); let v = m, w = tag; for (let i = 0; i < d; i++) { const list = kind === 1 || (kind === 2 && i % 2 === 0); v = list ? [s, v] : { s, v }; w = list ? [s, w] : { s, v: w }; }
        const st = await h.settle(lf.dataset.createItem({ datasetName: "D", [f]: v }), { timers: true }); h.assert(st.status === "fulfilled" && created.length === 1, "created"); if (created.length !== 1) return; h.assert(puts === 1, "uploaded once"); h.assert(h.eq(created[0][f], w), "replaced by its reference, wherever it is");
      },
    },
    {
      name: "creating items", bounds: "up to three media, two with symbolic one-byte contents (equal or different), values that occur twice, placed in input, expected output and metadata at several depths, a media reference, a class instance, symbolic texts; each upload accepted, already present, refused, or failing",
      quick: {}, mustReach: ["created", "refused", "dedup"],
      run: async (h) => {
        const core = h.require("@langfuse/core"); const ups = [], created = [], log = []; const how = [h.choice("h0", 4), h.choice("h1", 3), 0]; const ids = [];
        const { client: lf } = client(h, { datasets: { get: (n) => { h.assert(n === "D", "dataset looked up by name"); return Promise.resolve({ id: "dsid" }); } }, media: { getUploadUrl: async (r) => { const i = ups.length; ups.push(r); log.push("url"); if (how[i] === 2) throw new Error("refused"); const k = ids.findIndex((x) => x.h === r.sha256Hash); return { uploadUrl: how[i] === 1 ? null : "https://up/" + i, mediaId: how[i] === 3 ? "wrong" : ids[k].id }; }, patch: () => Promise.resolve() }, datasetItems: { create: (r) => { log.push("create"); created.push(r); return Promise.resolve(Object.assign({ created: true }, r)); } } });
        h.onFetch(() => { log.push("put"); return Promise.resolve({ status: 200, text: () => Promise.resolve("") }); });
        const b0 = h.int("b0", 0, 255), b1 = h.int("b1", 0, 255); const m0 = new core.LangfuseMedia({ source: "bytes", contentBytes: h.bytes([b0]), contentType: "image/png" }), m1 = new core.LangfuseMedia({ source: "bytes", contentBytes: h.bytes([b1]), contentType: "image/png" });
        for (const m of [m0, m1]) ids.push({ h: await m.getSha256Hash(), id: await m.getId() }); const t0 = await m0.getTag(), t1 = await m1.getTag();
        const rf = new core.LangfuseMediaReference({ mediaId: "z", contentType: "image/png", url: "u", urlExpiry: "x", contentLength: 1, referenceString: "@@@ref@@@" }); class Box { constructor() { this.m = "kept"; } } const box = new Box(); const s = h.string("s", { max: 2 });
        const shape = h.choice("shape", 4); const m2 = new core.LangfuseMedia({ source: "bytes", contentBytes: h.bytes([1, 2]), contentType: "image/png" }); if (shape === 3) { ids.push({ h: await m2.getSha256Hash(), id: await m2.getId() }); } const t2 = await m2.getTag(); const withId = h.flag("id"); const req = { datasetName: "D", sourceTraceId: "tr", ...(withId ? { id: "given" } : {}) };
        let want;
        if (shape === 0) { req.input = m0; req.expectedOutput = { a: [s, { b: m1, c: null }], d: undefined, box }; req.metadata = { r: rf, n: 1, list: [m0, m0] }; want = { input: t0, expectedOutput: { a: [s, { b: t1, c: null }], box }, metadata: { r: "@@@ref@@@", n: 1, list: [t0, t0] } }; }
        else if (shape === 1) { req.input = { ["k" + s]: [[m0]] }; req.metadata = m1; want = { input: { ["k" + s]: [[t0]] }, metadata: t1 }; }
        else if (shape === 3) { const shared = { p: [m0], q: m2 }; req.input = { a: shared, b: { c: shared }, d: [shared, m1] }; req.metadata = { e: shared }; const w = { p: [t0], q: t2 }; want = { input: { a: w, b: { c: w }, d: [w, t1] }, metadata: { e: w } }; }
        else { req.input = [s, rf, { x: { y: {} } }, []]; req.expectedOutput = null; want = { input: [s, "@@@ref@@@", { x: { y: {} } }, []], expectedOutput: null }; }
        Object.freeze(req); for (const f of ["input", "expectedOutput", "metadata"]) { const go = (x) => { if (x && typeof x === "object" && (Array.isArray(x) || Object.getPrototypeOf(x) === Object.prototype)) { Object.freeze(x); Object.values(x).forEach(go); } }; go(req[f]); }
        const st = await h.settle(lf.dataset.createItem(req), { timers: true });
        const same = h.concrete(h.eq(b0, b1)); const n = shape === 2 ? 0 : (same ? 1 : 2) + (shape === 3 ? 1 : 0); if (shape !== 2 && same) h.reach("dedup"); h.assert(ups.length === n, "each distinct media is offered once"); const failed = how.slice(0, n).some((x) => x >= 2);
        for (const u of ups) { h.assert(u.datasetId === "dsid" && u.contentType === "image/png" && u.contentLength === (u.sha256Hash === (ids[2] || {}).h ? 2 : 1) && u.traceId === undefined, "upload request"); h.assert(withId ? u.datasetItemId === "given" : typeof u.datasetItemId === "string" && u.datasetItemId.length === 36, "for the new item"); }
        if (failed) { h.reach("refused"); h.assert(st.status === "rejected" && created.length === 0, "nothing is created when an upload fails"); return; }
        h.assert(st.status === "fulfilled" && created.length === 1, "created once"); h.reach("created"); h.assert(log[log.length - 1] === "create" && log.filter((x) => x === "put").length === how.slice(0, n).filter((x) => x === 0).length, "after all uploads");
        const c = Object.assign({}, created[0]); if (withId) h.assert(c.id === "given", "id"); if (ups[0]) h.assert(c.id === ups[0].datasetItemId, "same id as the uploads"); delete c.id; h.assert(h.eq(c, Object.assign({ datasetName: "D", sourceTraceId: "tr" }, want)), "references in place, everything else unchanged"); if (shape === 0) h.assert(c.expectedOutput.box === box, "instances are passed on");
        h.assert(h.eq(st.value.created, true), "the created item is returned");
      },
    },
    {
      name: "links and experiments", bounds: "2 items; link with and without arguments; an experiment on the fetched dataset", quick: {},
      run: async (h) => {
        const o = otel(h); const links = []; const { client: lf } = client(h, { datasets: { get: () => Promise.resolve({ id: "ds", name: "d" }) }, datasetItems: { list: () => Promise.resolve({ data: [item("a"), item("b")], meta: { totalPages: 1 } }) }, datasetRunItems: { create: (r) => { links.push(r); return Promise.resolve({ datasetRunId: "run", id: "l" }); } } });
        const version = h.pick("version", [undefined, "v1"]); const d = await lf.dataset.get("d", { version }); const i = h.choice("i", 2), desc = h.string("desc", { max: 2 }), args = h.flag("args"); const span = o.start("s");
        const r = await d.items[i].link({ otelSpan: span }, "rn", args ? { description: desc, metadata: { x: desc } } : undefined); h.assert(r.id === "l" && links.length === 1, "linked"); const { traceId, spanId } = span.spanContext();
        h.assert(h.eq(links[0], Object.assign({ runName: "rn", datasetItemId: i ? "b" : "a", traceId, observationId: spanId }, args ? { runDescription: desc, metadata: { x: desc } } : {})), "its own item, trace and observation");
        const st = await h.settle(d.runExperiment({ name: "e", task: async (it) => "o" + it.id }), { timers: true }); h.assert(st.status === "fulfilled" && h.eq(st.value.itemResults.map((x) => x.output), ["oa", "ob"]), "runs on every item"); h.assert(links.length === 3 && h.eq(links.slice(1).map((l) => l.datasetItemId).sort(), ["a", "b"]) && links.slice(1).every((l) => l.datasetVersion === version), "linked with the version");
      },
    },
  ],
};
