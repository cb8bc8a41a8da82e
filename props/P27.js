"use strict";
const { otel, client, ids } = require("./lib.js");
const answer = (text) => ({ status: 200, ok: true, headers: { get: () => null }, redirected: false, statusText: "", type: "basic", url: "", body: {}, text: () => Promise.resolve(text) });
const b64 = (h, s) => h.require("@langfuse/core").base64Encode(s);
// one setting given as parameter, environment variable, global variable, several of them or not at all: [params, effective value]
function setting(h, name, param, vars, vals) {
  const params = {}; let eff; const v = vals;
  let win;
  for (const k of vars) { const where = h.choice(name + k, 4); if (where === 0) continue; const x = v("e"); if (where === 1) h.env[k] = x; else if (where === 2) h.global(k, x); else { h.env[k] = ""; continue; } if (win === undefined) win = x; }
  if (h.flag(name + "p")) { const x = v("p"); params[param] = x; eff = x; } else eff = win;
  return { params, eff };
}
const str = (h, tag) => { let n = 0; return () => h.string(tag + n++, { min: 1, max: 2, ranges: [[32, 126]] }); };
const url = (h, tag) => { let n = 0; return () => "https://h" + n++ + ".example/" + h.pick(tag + "u" + n, ["x", "y"]); };
module.exports = {
  assumptions: ["environment variables are read when a client or processor is created; unset and empty ones count as absent", "addresses carry no trailing slash", "LangfuseClient's timeout setting is not part of the claim (it is not applied to requests; see DESIGN.md)"],
  harnesses: [
    {
      name: "client settings", bounds: "each of public key, secret key, base address (current and legacy variable) and headers: parameter, environment variable, global variable, empty variable or absent, with symbolic texts of 1..2 units; the others fixed",
      quick: { cases: [{ m: "public" }, { m: "secret" }, { m: "base" }] }, meta: { instrumentApi: true }, mustReach: ["request"],
      run: async (h) => {
        const m = h.params.m; const core = h.require("@langfuse/core"); core.configureGlobalLogger({ level: 2 }); let p = { publicKey: "pk", secretKey: "sk", baseUrl: "https://b.example" }, pk = "pk", sk = "sk", base = "https://b.example";
        if (m === "public") { const s = setting(h, "k", "publicKey", ["LANGFUSE_PUBLIC_KEY"], str(h, "v")); delete p.publicKey; Object.assign(p, s.params); pk = s.eff; }
        if (m === "secret") { const s = setting(h, "k", "secretKey", ["LANGFUSE_SECRET_KEY"], str(h, "v")); delete p.secretKey; Object.assign(p, s.params); sk = s.eff; }
        if (m === "base") { const s = setting(h, "k", "baseUrl", ["LANGFUSE_BASE_URL", "LANGFUSE_BASEURL"], url(h, "v")); delete p.baseUrl; Object.assign(p, s.params); base = s.eff === undefined ? "https://cloud.langfuse.com" : s.eff; }
        if (h.flag("hdr")) p.additionalHeaders = { "x-own": h.string("own", { max: 1, ascii: true }) };
        const { LangfuseClient } = h.require("@langfuse/client"); const lf = new LangfuseClient(Object.keys(p).length ? p : undefined); const warned = h.logs().filter((l) => l.m === "warn").length; h.assert(warned === (pk ? 0 : 1) + (sk ? 0 : 1), "a missing key is warned about");
        let sent; h.onFetch((u, i) => { sent = { u, i }; return Promise.resolve(answer('{"data":[{"id":"P"}]}')); }); h.reach("request");
        const link = await lf.getTraceUrl("T"); h.assert(sent.u === base + "/api/public/projects" && link === base + "/project/P/traces/T", "base address in effect"); const hd = sent.i.headers;
        if (pk !== undefined && sk !== undefined) h.assert(h.eq(hd.Authorization, "Basic " + b64(h, pk + ":" + sk)), "credentials in effect"); else h.assert(hd.Authorization === undefined, "no credentials"); h.assert(h.eq(hd["X-Langfuse-Public-Key"], pk), "public key"); h.assert(hd["X-Langfuse-Sdk-Name"] === "javascript" && hd["X-Langfuse-Sdk-Version"] === core.LANGFUSE_SDK_VERSION, "SDK identification"); if (p.additionalHeaders) h.assert(h.eq(hd["x-own"], p.additionalHeaders["x-own"]), "additional headers");
      },
    },
    {
      name: "span processor settings", bounds: "each of keys, base address, environment, release, timeout, media upload switch: parameter, environment variable, global variable, empty or absent; additional headers given or not",
      quick: { cases: [{ m: "public" }, { m: "secret" }, { m: "base" }, { m: "environment" }, { m: "release" }, { m: "timeout" }, { m: "media" }] },
      run: async (h) => {
        const m = h.params.m; const core = h.require("@langfuse/core"); core.configureGlobalLogger({ level: 2 }); const V = { public: ["publicKey", ["LANGFUSE_PUBLIC_KEY"]], secret: ["secretKey", ["LANGFUSE_SECRET_KEY"]], base: ["baseUrl", ["LANGFUSE_BASE_URL", "LANGFUSE_BASEURL"]], environment: ["environment", ["LANGFUSE_TRACING_ENVIRONMENT"]], release: ["release", ["LANGFUSE_RELEASE"]], timeout: ["timeout", ["LANGFUSE_TIMEOUT"]], media: ["mediaUploadEnabled", ["LANGFUSE_MEDIA_UPLOAD_ENABLED"]] }[m];
        const vals = m === "base" ? url(h, "v") : m === "timeout" ? (k) => (k === "p" ? h.int("tp", 0, 100) : h.pick("te", ["7", "30", "0.5"])) : m === "media" ? (k) => (k === "p" ? h.flag("mp") : h.pick("me", ["true", "false", "0", "1", "FALSE", "False", "no"])) : str(h, "v");
        const s = setting(h, "k", V[0], V[1], vals); const p = Object.assign({ publicKey: "pk", secretKey: "sk", baseUrl: "https://b.example" }); if (p[V[0]]) delete p[V[0]]; Object.assign(p, s.params); const eff = s.eff;
        const own = m === "timeout" || m === "public" ? h.string("own", { max: 1, ascii: true }) : undefined; if (own !== undefined) p.additionalHeaders = { "x-own": own }; const exported = []; if (m === "environment" || m === "release" || m === "media") p.exporter = { export: (l, cb) => { for (const x of l) exported.push(x); cb({ code: 0 }); }, shutdown: () => Promise.resolve(), forceFlush: () => Promise.resolve() }; p.exportMode = "immediate"; let apiOpts; h.api((o) => { apiOpts = o; return h.apiStub({ media: { getUploadUrl: (r) => Promise.resolve({ uploadUrl: null, mediaId: "x" }) } }); });
        const o = otel(h, { noProcessor: true }); core.configureGlobalLogger({ level: 2 }); const { LangfuseSpanProcessor } = h.require("@langfuse/otel"); const proc = new LangfuseSpanProcessor(p); const provider = new o.sdk.BasicTracerProvider({ spanProcessors: [proc], idGenerator: ids() });
        if (p.exporter) { const sp = provider.getTracer("langfuse-sdk").startSpan("s"); sp.setAttribute("langfuse.observation.input", "data:image/png;base64,QUJD"); sp.end(); await h.tick(); await proc.forceFlush(); h.assert(exported.length === 1, "exported"); const a = exported[0].attributes; h.assert(h.eq(a["langfuse.environment"], m === "environment" ? eff : undefined), "environment in effect"); h.assert(h.eq(a["langfuse.release"], m === "release" ? eff : undefined), "release in effect");
          const on = m !== "media" || eff === undefined ? true : typeof eff === "boolean" ? eff : !["false", "0"].includes(eff.toLowerCase()); h.assert(a["langfuse.observation.input"].startsWith("@@@langfuseMedia:") === on, "media handling as switched"); return; }
        const ex = h.exporters(); h.assert(ex.length === 1, "one exporter"); const op = ex[0].opts, hd = {}; for (const k of Object.keys(op.headers)) hd[k.toLowerCase()] = op.headers[k]; const pk = m === "public" ? eff : "pk", sk = m === "secret" ? eff : "sk", base = m === "base" ? (eff === undefined ? "https://cloud.langfuse.com" : eff) : "https://b.example";
        h.assert(op.url === base + "/api/public/otel/v1/traces" && apiOpts.baseUrl === base, "base address in effect"); if (pk !== undefined && sk !== undefined) h.assert(h.eq(hd.authorization, "Basic " + b64(h, pk + ":" + sk)), "credentials in effect"); h.assert(h.and(h.eq(apiOpts.username, pk), h.eq(apiOpts.password, sk)), "also for media"); h.assert(h.eq(hd["x-langfuse-public-key"], pk === undefined ? "<missing>" : pk) && hd["x-langfuse-sdk-name"] === "javascript" && hd["x-langfuse-sdk-version"] === core.LANGFUSE_SDK_VERSION, "identification");
        if (own !== undefined) h.assert(h.eq(op.headers["x-own"], own) && apiOpts.headers && h.eq(apiOpts.headers["x-own"], own), "additional headers, also for media"); const warned = h.logs().filter((l) => l.m === "warn").length; h.assert(warned === (pk ? 0 : 1) + (sk ? 0 : 1), "a missing key is warned about");
        h.assert(h.eq(op.timeoutMillis, m === "timeout" && eff !== undefined ? Number(eff) * 1000 : 5000), "timeout in effect");
      },
    },
    {
      name: "batching settings", bounds: "flush size 1..3 and interval 1..20 s as parameter, environment variable or default; 4 spans", quick: {},
      run: async (h) => {
        const m = h.pick("m", ["at", "interval"]); const n = m === "at" ? h.choice("n", 3) + 1 : h.int("iv", 1, 20), other = m === "at" ? "4" : "9"; const w = h.choice("w", 4); const p = {}; const key = m === "at" ? "flushAt" : "flushInterval", ev = m === "at" ? "LANGFUSE_FLUSH_AT" : "LANGFUSE_FLUSH_INTERVAL"; let eff = n; if (w === 0) p[key] = n; else if (w === 1) { p[key] = n; h.env[ev] = other; } else if (w === 2) { const c = h.concrete(m === "at" ? n : 6); h.env[ev] = String(c); eff = c; } else eff = undefined;
        if (m === "at") p.flushInterval = 50; const batches = []; const exporter = { export: (l, cb) => { batches.push(l.length); cb({ code: 0 }); }, shutdown: () => Promise.resolve(), forceFlush: () => Promise.resolve() }; const o = otel(h, { noProcessor: true }); const { LangfuseSpanProcessor } = h.require("@langfuse/otel"); const proc = new LangfuseSpanProcessor(Object.assign({ publicKey: "p", secretKey: "s", exporter, mediaUploadEnabled: false }, p)); const t = new o.sdk.BasicTracerProvider({ spanProcessors: [proc], idGenerator: ids() }).getTracer("langfuse-sdk");
        const total = m === "at" ? 4 : 1; for (let i = 0; i < total; i++) { t.startSpan("s" + i).end(); await h.tick(); if (m === "at") await h.advance(1); }
        if (m === "at") { h.assert(batches.every((b) => b <= (eff === undefined ? 512 : eff)), "no batch is larger than asked for"); h.assert(batches.reduce((a, b) => a + b, 0) === (eff === undefined ? 0 : Math.floor(4 / eff) * eff), "sent as soon as the size is reached"); await h.advance(50000); h.assert(batches.reduce((a, b) => a + b, 0) === 4, "all sent after the interval"); }
        else { const d = eff === undefined ? 5000 : eff * 1000; await h.advance(d - 1); h.assert(batches.length === 0, "not before the interval"); await h.advance(2); h.assert(batches.length === 1, "after the interval"); }
      },
    },
    {
      name: "logging", bounds: "every level and method; prefix and text of up to 2 symbolic units; timestamps on, off or default; level changed afterwards; level from parameter or environment (symbolic text of up to 5 units and 12 spellings)",
      quick: { cases: [{ m: "levels" }, { m: "env" }] }, mustReach: ["printed", "dropped"],
      run: async (h) => {
        const M = ["debug", "info", "warn", "error"];
        if (h.params.m === "env") {
          const w = h.choice("w", 14); let v, eff = 1; if (w === 12) v = h.string("lv", { max: 5, ascii: true }); else if (w === 13) { h.env.LANGFUSE_DEBUG = h.pick("dbg", ["true", "TRUE", "True"]); v = "ERROR"; } else v = ["debug", "DEBUG", "Info", "WARN", "warn", "Error", "NONE", "none", "verbose", "", "0", undefined][w]; if (v !== undefined) h.env.LANGFUSE_LOG_LEVEL = v; if (w === 11) h.env.LANGFUSE_DEBUG = h.pick("dbg", ["false", "1", ""]);
          const names = ["DEBUG", "INFO", "WARN", "ERROR", "NONE"]; if (w === 13) eff = 0; else if (v !== undefined) { const i = names.indexOf(v.toUpperCase()); if (i >= 0) eff = i; } const core = h.require("@langfuse/core"); const l = core.getGlobalLogger(); const k = h.choice("k", 4); l[M[k]]("m"); h.reach(k >= eff ? "printed" : "dropped"); h.assert(h.logs().length === (k >= eff ? 1 : 0), "level from the environment"); const reset = h.flag("conf"); if (reset) { core.configureGlobalLogger({ level: 3 }); const before = h.logs().length; core.getGlobalLogger()[M[k]]("m"); h.assert(h.logs().length - before === (k >= 3 ? 1 : 0), "an explicit level wins"); } return;
        }
        const core = h.require("@langfuse/core"); const level = h.int("level", 0, 4), k = h.choice("k", 4), ts = h.pick("ts", [undefined, true, false]), prefix = h.flag("pre") ? h.string("prefix", { min: 1, max: 2, ascii: true }) : undefined, msg = h.string("msg", { min: 1, max: 2, bmp: true }); const arg = { a: 1 };
        const conf = { level }; if (ts !== undefined) conf.enableTimestamp = ts; if (prefix !== undefined) conf.prefix = prefix; const glob = h.flag("glob"); let l; if (glob) { core.configureGlobalLogger(conf); l = core.getGlobalLogger(); } else l = core.createLogger(conf); let eff = level; if (h.flag("set")) { eff = h.int("level2", 0, 4); l.setLevel(eff); } l[M[k]](msg, arg, 7); const on = k >= eff;
        h.assert(h.eq(l.getLevel(), eff) && h.iff(l.isLevelEnabled(k), on), "level");
        if (on) { h.reach("printed"); h.assert(h.logs().length === 1, "printed once"); const e = h.logs()[0]; h.assert(e.m === M[k], "on the matching console method"); h.assert(e.a.length === 3 && e.a[1] === arg && e.a[2] === 7, "with its arguments"); h.assert(e.a[0].includes((prefix === undefined ? "[Langfuse SDK]" : prefix) + " [" + M[k].toUpperCase() + "] " + msg), "with prefix, level and text"); h.assert(h.eq(e.a[0].startsWith("20"), ts !== false ? true : prefix !== undefined && prefix.startsWith("20")), "timestamp as configured"); }
        else { h.reach("dropped"); h.assert(h.logs().length === 0, "not printed"); }
      },
    },
    {
      name: "shorthands of the managers", bounds: "prompt, dataset and media shorthands next to their counterparts with symbolic names; flush and shutdown", quick: {},
      run: async (h) => {
        const log = []; const rec = (n, v) => (...a) => { log.push({ n, a }); return Promise.resolve(typeof v === "function" ? v(...a) : v); }; const name = h.string("x", { min: 1, max: 2, ranges: [[97, 122]] }); const prompt = (n) => ({ id: "i", name: n, version: 3, prompt: "t", type: "text", config: {}, labels: [], tags: [] });
        const make = () => client(h, { prompts: { get: rec("p.get", prompt), create: rec("p.create", (r) => prompt(r.name)) }, promptVersion: { update: rec("pv.update", prompt(name)) }, datasets: { get: rec("d.get", { id: "d", name, metadata: null }) }, datasetItems: { list: rec("di.list", { data: [], meta: { totalPages: 0, page: 1 } }), create: rec("di.create", { id: "it" }) }, media: { get: rec("m.get", { contentType: "text/plain", url: "u" }) } }).client;
        const w = h.choice("w", 7); const pair = [[(c) => c.getPrompt(name, { version: 3, cacheTtlSeconds: 0 }), (c) => c.prompt.get(name, { version: 3, cacheTtlSeconds: 0 })], [(c) => c.createPrompt({ name, prompt: "t", labels: ["l"] }), (c) => c.prompt.create({ name, prompt: "t", labels: ["l"] })], [(c) => c.updatePrompt({ name, version: 3, newLabels: ["n"] }), (c) => c.prompt.update({ name, version: 3, newLabels: ["n"] })], [(c) => c.getDataset(name, { fetchItemsPageSize: 2 }), (c) => c.dataset.get(name, { fetchItemsPageSize: 2 })], [(c) => c.createDatasetItem({ datasetName: name, id: "I", input: { a: 1 } }), (c) => c.dataset.createItem({ datasetName: name, id: "I", input: { a: 1 } })], [(c) => c.resolveMediaReferences({ resolveWith: "base64DataUri", obj: { a: name } }), (c) => c.media.resolveReferences({ resolveWith: "base64DataUri", obj: { a: name } })]];
        if (w === 6) { const { client: lf, scores } = client(h, {}); lf.score.create({ name: "s", value: 1, traceId: "t" }); const p = h.flag("down") ? lf.shutdown() : lf.flush(); const st = await h.settle(p); h.assert(st.status === "fulfilled" && scores.length === 1, "flush and shutdown send pending scores"); return; }
        const [a, b] = pair[w]; const r1 = await h.settle(a(make())); const l1 = log.splice(0); const r2 = await h.settle(b(make())); const l2 = log.splice(0); h.assert(r1.status === "fulfilled" && r2.status === "fulfilled", "both succeed"); h.assert(l1.length === l2.length && l1.every((x, i) => x.n === l2[i].n && h.eq(x.a, l2[i].a)), "the same requests"); h.assert(h.eq(JSON.stringify(r1.value), JSON.stringify(r2.value)), "the same result");
      },
    },
    {
      name: "shorthands", bounds: "each shorthand of the client with a symbolic argument; trace links", quick: {},
      run: async (h) => {
        const A = [["fetchTrace", "trace", "get"], ["fetchTraces", "trace", "list"], ["fetchObservations", "observations", "getMany"], ["fetchSessions", "sessions", "get"], ["getDatasetRun", "datasets", "getRun"], ["getDatasetRuns", "datasets", "getRuns"], ["createDataset", "datasets", "create"], ["getDatasetItem", "datasetItems", "get"], ["fetchMedia", "media", "get"], ["fetchObservation", "legacy", "get"]]; const calls = []; const mk = (r, m) => function (...a) { calls.push({ r, m, a, self: this }); return Promise.resolve("R"); }; const api = { legacy: { observationsV1: { get: mk("legacy", "get") } } }; for (const [, r, m] of A) if (r !== "legacy") { api[r] = api[r] || {}; api[r][m] = mk(r, m); }
        let np = 0; const proj = () => { np++; return Promise.resolve({ data: [{ id: "P1" }, { id: "P2" }] }); }; api.projects = { get: proj }; const { client: lf } = client(h, api); const x = h.string("x", { max: 2, bmp: true }); const i = h.choice("i", A.length + 1);
        if (i === A.length) { const u1 = await lf.getTraceUrl(x), u2 = await lf.getTraceUrl("t2"); h.assert(h.eq(u1, "https://lf.example/project/P1/traces/" + x) && u2 === "https://lf.example/project/P1/traces/t2" && np === 1, "trace links"); return; }
        const f = lf[A[i][0]]; const r = await f(x, { o: 1 }); h.assert(r === "R" && calls.length === 1 && calls[0].r === A[i][1] && calls[0].m === A[i][2] && h.eq(calls[0].a, [x, { o: 1 }]), "the shorthand does what its counterpart does");
      },
    },
  ],
};
