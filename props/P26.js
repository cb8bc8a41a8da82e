"use strict";
const EP = require("./endpoints.json"); // HTTP method, path, query parameters and body of every API method: the specification
const BASE = "https://lf.example/sub";
const SPECIAL = "v&=?#/ %+\u00e9\"";
const api = (h, over) => { const core = h.require("@langfuse/core"); return { core, client: new core.LangfuseAPIClient(Object.assign({ environment: "https://env.example", baseUrl: BASE, username: "pk", password: "sk", xLangfuseSdkName: "javascript", xLangfuseSdkVersion: "1.2.3", xLangfusePublicKey: "pk" }, over || {})) }; };
const hdrs = (o) => { const m = {}; for (const k of Object.keys(o || {})) m[k.toLowerCase()] = o[k]; return { get: (n) => { const v = m[n.toLowerCase()]; return v === undefined ? null : v; } }; };
const answer = (status, text, headers) => ({ status, ok: status >= 200 && status < 300, headers: hdrs(headers), redirected: false, statusText: "", type: "basic", url: "", body: text === null ? null : {}, text: () => Promise.resolve(text === null ? "" : text) });
// a network that answers, never answers (until aborted), or fails
const hang = (init) => new Promise((res, rej) => { if (init.signal.aborted) rej(init.signal.reason); else init.signal.addEventListener("abort", () => rej(init.signal.reason)); });
const method = (client, e) => { let o = client; for (const p of e.res.split(".")) o = o[p]; return (...a) => o[e.name](...a); };
// the query of an address, decoded: [[key, value], ...]
const query = (q) => (q === "" ? [] : q.split("&").map((p) => { const i = p.indexOf("="); return [decodeURIComponent(p.slice(0, i)), decodeURIComponent(p.slice(i + 1))]; }));
const split = (u) => { const i = u.indexOf("?"); return i < 0 ? [u, ""] : [u.slice(0, i), u.slice(i + 1)]; };
const noDots = (h, s) => h.and(h.not(h.eq(s, ".")), h.not(h.eq(s, "..")));
const meta = { instrumentApi: true };
const chunks = (n, extra) => Array.from({ length: n }, (_, i) => Object.assign({ part: i, of: n }, extra));
const mine = (h) => { const l = EP.filter((e, i) => i % h.params.of === h.params.part); return l[h.choice("endpoint", l.length)]; };
// arguments for an endpoint: path values, query values, body
const args = (h, e, pathv, queryv, body, opts) => e.params.map((p) => (p === "request" ? (e.body ? body : queryv) : pathv[p])).concat([opts]);
module.exports = {
  assumptions: ["the endpoint table props/endpoints.json (HTTP method, path, query and body of the 114 API methods) is the specification", "path values are not empty and not the dot segments '.' and '..', which no URL can carry", "fetch rejects with the signal's reason when aborted", "retry limits are non-negative integers"],
  harnesses: [
    {
      name: "every endpoint: path", bounds: "each of the 114 API methods with path values of 1 symbolic unit, for half of the methods after a letter (second one fixed); body with a symbolic text of up to 2 units",
      quick: { cases: chunks(3) }, thorough: { cases: chunks(8, { deep: true }) }, meta,
      run: async (h) => {
        const { client } = api(h); const e = mine(h); const pathv = {}; let first = true; for (const p of e.params) if (p !== "request") { if (first || h.params.deep) { const v = (!h.params.deep && e.path.length % 2 ? "a" : "") + h.string("p", { min: 1, max: h.params.deep ? 2 : 1, bmp: true }); h.assume(noDots(h, v)); pathv[p] = v; first = false; } else pathv[p] = "i/d ?#&\u00e9"; }
        const body = { a: e.body ? h.string("b", { max: 2, bmp: true }) : "x", b: [1, null], c: { d: false } }; let sent; h.onFetch((u, i) => { sent = { u, i }; return Promise.resolve(answer(200, e.void ? null : '{"data":{"x":[1]}}', { "content-type": "application/json" })); });
        const q = {}; for (const x of e.query) if (x.required) q[x.arg] = "r"; const st = await h.settle(method(client, e)(...args(h, e, pathv, q, h.freeze(body), undefined))); h.assert(st.status === "fulfilled" && h.eq(st.value, e.void ? undefined : { data: { x: [1] } }), "the answer's content is returned"); h.assert(h.fetches().length === 1, "one request");
        const [u] = split(sent.u); const tmpl = e.path.split("/"), got = u.slice(BASE.length).split("/"); h.assert(u.startsWith(BASE + "/api/"), "under the base address"); h.assert(sent.i.method === e.verb, "HTTP method"); h.assert(got.length === tmpl.length, "path values stay within their segment");
        for (let k = 0; k < tmpl.length; k++) { const m = tmpl[k]; h.assert(m[0] === "{" ? h.eq(decodeURIComponent(got[k]), pathv[m.slice(1, -1)]) : h.eq(got[k], m), "path segment"); }
        if (e.body) { h.assert(h.eq(JSON.parse(sent.i.body), body), "body"); h.assert(sent.i.headers["Content-Type"] === "application/json", "content type"); } else h.assert(sent.i.body === undefined, "no body");
      },
    },
    {
      name: "every endpoint: query and headers", bounds: "each of the 114 API methods; all query parameters given as texts with reserved characters, zero, false or lists, or none given; default and per-call headers and SDK identification",
      quick: { cases: chunks(3) }, meta,
      run: async (h) => {
        const e = mine(h); const mode = h.pick("mode", e.query.length ? ["text", "zero", "false", "list", "none"] : ["none"]); const custom = h.flag("custom"); const { client } = api(h, custom ? { headers: { "x-c": "1", "x-d": "2", "x-e": "3" } } : {}); const q = {}, want = []; let n = 0;
        for (const x of e.query) { if (mode === "none" && !x.required) continue; if (mode === "list" && x.list) { q[x.arg] = ["a&" + n, SPECIAL]; want.push([x.key, "a&" + n], [x.key, SPECIAL]); n++; continue; } const v = mode === "zero" ? 0 : mode === "false" ? false : SPECIAL + n++; q[x.arg] = v; want.push([x.key, String(v)]); }
        const extra = custom ? { queryParams: { extra: "e&" }, headers: { "x-d": "r", "x-e": null, "x-r": "9" }, xLangfuseSdkName: "other", xLangfuseSdkVersion: "0", xLangfusePublicKey: "pk2" } : undefined; if (custom) want.push(["extra", "e&"]);
        const pathv = {}; for (const p of e.params) pathv[p] = "id"; let sent; h.onFetch((u, i) => { sent = { u, i }; return Promise.resolve(answer(200, "{}", {})); }); const st = await h.settle(method(client, e)(...args(h, e, pathv, q, { a: 1 }, extra))); h.assert(st.status === "fulfilled", "answered");
        const key = (p) => p[0] + "=" + p[1]; h.assert(h.eq(query(split(sent.u)[1]).map(key).sort(), want.map(key).sort()), "every given query value, and no other");
        const hd = {}; for (const k of Object.keys(sent.i.headers)) hd[k.toLowerCase()] = sent.i.headers[k]; const w = Object.assign({ authorization: "Basic cGs6c2s=", "x-langfuse-sdk-name": custom ? "other" : "javascript", "x-langfuse-sdk-version": custom ? "0" : "1.2.3", "x-langfuse-public-key": custom ? "pk2" : "pk" }, e.body ? { "content-type": "application/json" } : {}, custom ? { "x-c": "1", "x-d": "r", "x-r": "9" } : {}); h.assert(h.eq(hd, w), "credentials, SDK identification and headers: the most specific one wins");
      },
    },
    {
      name: "every endpoint: failures", bounds: "each of the 114 API methods; any status 400..599 with JSON, text, broken or no body; retried twice by default, or as given; timeout default or given; aborts; network errors",
      quick: { cases: chunks(5) }, thorough: { cases: chunks(5, { deep: true }) }, meta, mustReach: ["status", "timeout"],
      run: async (h) => {
        const { core, client } = api(h); const e = mine(h), how = h.choice("how", 6); const pathv = {}; for (const p of e.params) pathv[p] = "id"; const q = {}; for (const x of e.query) if (x.required) q[x.arg] = "r"; const given = h.flag("given"); const call = (o) => method(client, e)(...args(h, e, pathv, q, { a: 1 }, o)); const tries = () => h.fetches().length;
        if (how === 0) { // status
          const status = h.int("status", 400, 599); h.reach("status"); const kind = given ? 0 : h.params.deep ? h.choice("kind", 4) : h.pick("kind", [1, 2]); const [text, ct, want] = [['{"m":"x"}', "application/json; charset=utf-8", { m: "x" }], ["plain", "text/plain", "plain"], ["<html", "application/json", "<html"], [null, "", undefined]][kind]; h.onFetch(() => Promise.resolve(answer(status, text, ct ? { "content-type": ct } : {})));
          const st = await h.settle(call(given ? { maxRetries: 1 } : { maxRetries: 0 }), { timers: true }); h.assert(st.status === "rejected" && st.reason instanceof core.LangfuseAPIError, "an API error"); h.assert(h.eq(st.reason.statusCode, status), "carrying the status"); if (e.res !== "health" && e.res !== "feedback") h.assert(h.eq(st.reason.body, want), "and the body");
          const again = h.or(h.eq(status, 408), h.eq(status, 429), status >= 500); h.assert(h.eq(tries(), h.ite(again, given ? 2 : 1, 1)), "retried exactly on 408, 429 and 5xx"); if (!e.res.startsWith("unstable")) for (const [s, n] of [[401, "UnauthorizedError"], [403, "AccessDeniedError"], [404, "NotFoundError"], [405, "MethodNotAllowedError"]]) h.assert(h.implies(h.eq(status, s), st.reason instanceof core[n]), "its own error class"); return;
        }
        if (how === 1) { h.onFetch(() => Promise.resolve(answer(503, "", { "retry-after": "1" }))); const st = await h.settle(call(undefined), { timers: true }); h.assert(st.status === "rejected" && st.reason.statusCode === 503 && tries() === 3, "retried twice by default"); return; }
        if (how === 2) { h.onFetch((u, i) => hang(i)); const start = h.now(); const t = given ? h.int("t", 1, 100) : 60; const p = call(given ? { timeoutInSeconds: t } : undefined); const st0 = await h.settle(p); h.assert(st0.status === "pending", "waits"); const st = await h.settle(p, { timers: true }); h.reach("timeout"); h.assert(st.status === "rejected" && st.reason instanceof core.LangfuseAPITimeoutError, "a timeout error"); h.assert(h.eq(h.now() - start, t * 1000), "after the timeout"); return; }
        if (how === 3) { const c = new AbortController(); h.onFetch((u, i) => hang(i)); if (given) c.abort(); const p = call({ abortSignal: c.signal }); p.catch(() => {}); await h.tick(); if (!given) c.abort(); const st = await h.settle(p); h.assert(st.status === "rejected" && st.reason instanceof core.LangfuseAPIError, "an aborted call rejects at once"); return; }
        if (how === 4) { h.onFetch(() => Promise.reject(given ? new TypeError("net down") : "odd")); const st = await h.settle(call(undefined), { timers: true }); h.assert(st.status === "rejected" && st.reason instanceof core.LangfuseAPIError && st.reason.message.includes(given ? "net down" : "odd"), "a network error surfaces"); return; }
        const text = given ? "<html>" : "{"; h.onFetch(() => Promise.resolve(answer(200, text, {}))); const st = await h.settle(call(undefined)); h.assert(st.status === "rejected" && st.reason instanceof core.LangfuseAPIError && st.reason.statusCode === 200, "an answer that is not JSON is an error");
      },
    },
    {
      name: "retries", bounds: "retry limit default or 0..1 (quick) / 0..3; every status 200..599 per attempt; retry headers: none, seconds (-5, 0, 1..100000), a date up to two minutes around now, a rate-limit reset around now, unreadable",
      quick: { params: { max: 1 } }, thorough: { params: { max: 3 }, timeS: 900 }, meta, mustReach: ["retried", "given up", "at once"],
      run: async (h) => {
        const { core, client } = api(h); const dflt = h.flag("default"), max = dflt ? 2 : h.choice("max", h.params.max + 1); const tries = []; let nr = 0; h.random(() => h.real("r" + nr++, 0, 1, true));
        const kindAt = h.tier === "quick" && (dflt || max !== 1) ? 0 : h.choice("kind", 7); const now0 = h.now();
        h.onFetch(() => { const i = tries.length; const status = h.int("s" + i, 200, 599); const t = { status, at: h.now() }; tries.push(t); const hd = {};
          const kind = i === 0 ? kindAt : 0; t.kind = kind; if (kind === 1) { t.sec = h.flag("pos") ? h.int("sec", 1, 100000) : h.pick("nonpos", [0, -5]); hd["Retry-After"] = String(t.sec); } if (kind === 2) { t.date = h.pick("date", [-1000, 0, 1000, 59000, 120000]); hd["Retry-After"] = new Date(now0 + t.date).toUTCString(); } if (kind === 3) { t.reset = h.int("reset", Math.floor(now0 / 1000) - 10, Math.floor(now0 / 1000) + 1000); hd["X-RateLimit-Reset"] = String(t.reset); } if (kind === 4) hd["Retry-After"] = "soon"; if (kind === 5) hd["X-RateLimit-Reset"] = "x"; if (kind === 6) hd["retry-after"] = "";
          return Promise.resolve(answer(status, '"ok' + i + '"', hd)); });
        const st = await h.settle(client.health.health(dflt ? undefined : { maxRetries: max }), { timers: true }); h.assert(st.status !== "pending", "ends"); const n = tries.length; h.assert(n >= 1 && n <= max + 1, "at most one request plus the retries");
        const again = (s) => h.or(h.eq(s, 408), h.eq(s, 429), s >= 500);
        for (let i = 0; i < n; i++) { const t = tries[i], lastOne = i === n - 1; if (!lastOne) { h.assert(again(t.status), "retried only on 408, 429 and 5xx"); const d = tries[i + 1].at - t.at; h.assert(h.and(d >= 0, d <= 72001), "bounded delay"); h.reach("retried");
            if (t.kind === 1) h.assert(h.implies(t.sec > 0, h.eq(d, Math.min(t.sec * 1000, 60000))), "as long as the server asks, at most a minute"); else if (t.kind === 0 || t.kind > 3) { const b = 1000 * Math.pow(2, i); h.assert(h.and(d >= b * 0.9 - 1, d <= b * 1.1 + 1), "exponential backoff"); } else if (t.kind === 2 && t.date >= 1000) h.assert(h.and(d >= Math.min(t.date - 1000, 60000), d <= Math.min(t.date, 60000)), "until the given date"); else if (t.kind === 3) { const w = t.reset * 1000 - now0; h.assert(h.implies(w > 0, h.and(d >= Math.min(w, 60000) - 1, d <= Math.min(w, 60000) * 1.2 + 1)), "until the rate limit resets"); } }
          else if (again(t.status)) { h.assert(n === max + 1, "all retries used"); h.reach("given up"); } else if (n === 1) h.reach("at once"); }
        const last = tries[n - 1]; if (last.status >= 400) h.assert(st.status === "rejected" && st.reason instanceof core.LangfuseAPIError && h.eq(st.reason.statusCode, last.status), "the last answer's status"); else h.assert(st.status === "fulfilled" && st.value === "ok" + (n - 1), "the last answer");
      },
    },
    {
      name: "encoding", bounds: "query keys and values, nested objects and lists with texts of up to 1 (quick) / 2 symbolic units, absent values; base addresses of 5 shapes; credentials of up to 1 / 2 symbolic units",
      quick: { cases: [{ m: "query", n: 1 }, { m: "base", n: 1 }, { m: "auth", n: 1 }] }, thorough: { cases: [{ m: "query", n: 2 }, { m: "base", n: 2 }, { m: "auth", n: 2 }], timeS: 1200 }, meta,
      run: async (h) => {
        const m = h.params.m; let over = {}, auth = "Basic cGs6c2s="; let sent; h.onFetch((u, i) => { sent = { u, i }; return Promise.resolve(answer(200, "{}", {})); });
        if (m === "query") {
          const { client } = api(h); const v = h.string("v", { max: h.params.n, bmp: true }), k = h.string("k", { min: 1, max: 1, ascii: true }); h.assume(h.not(h.eq(k, "z"))); const n = h.int("n", -100, 100); const shape = h.choice("shape", 6);
          const [qp, want] = [[{ [k]: v, z: n }, [[k, v], ["z", String(n)]]], [{ [k]: ["a", v] }, [[k, "a"], [k, v]]], [{ [k]: { x: v, y: true } }, [[k + "[x]", v], [k + "[y]", "true"]]], [{ [k]: undefined, z: v }, [["z", v]]], [{ [k]: [], z: {} }, []], [{ z: null, [k]: { x: { y: v } } }, [["z", ""], [k + "[x][y]", v]]]][shape];
          const st = await h.settle(client.prompts.list({}, { queryParams: qp })); h.assert(st.status === "fulfilled", "answered"); const got = query(split(sent.u)[1]); const byKey = (l) => l.slice().sort((a, b) => (a[0] === "z" ? 1 : 0) - (b[0] === "z" ? 1 : 0)); h.assert(h.eq(byKey(got), byKey(want)), "decoding gives the values back");
          h.assert(!split(sent.u)[1].includes("#") && !split(sent.u)[1].includes(" "), "encoded"); return;
        }
        if (m === "base") { const [b, want] = h.pick("base", [["https://a.b", "https://a.b"], ["https://a.b/", "https://a.b"], ["https://a.b/x/y/", "https://a.b/x/y"], ["http://a.b:3000/x", "http://a.b:3000/x"], ["/rel", "/rel"]]); const sup = h.choice("sup", 4); const { client } = api(h, { baseUrl: [b, () => b, () => Promise.resolve(b), undefined][sup], environment: sup === 3 ? b : "https://other.example" }); const name = h.string("name", { min: 1, max: h.params.n, bmp: true }); h.assume(noDots(h, name)); const st = await h.settle(client.prompts.get(name)); h.assert(st.status === "fulfilled", "answered"); const p = want + "/api/public/v2/prompts/"; h.assert(sent.u.startsWith(p) && h.eq(decodeURIComponent(sent.u.slice(p.length)), name), "address"); return; }
        if (h.flag("browser")) h.global("Buffer", undefined); const u = h.string("u", { max: h.params.n, bmp: true }), p = h.string("p", { max: h.params.n, bmp: true }), w = h.choice("w", 5); const { client } = api(h, [{ username: u, password: p }, { username: () => u, password: () => Promise.resolve(p) }, { username: undefined, password: p }, { username: u, password: undefined }, { username: u, password: p, headers: { Authorization: "X" } }][w]);
        const st = await h.settle(client.health.health()); h.assert(st.status === "fulfilled", "answered"); const a = sent.i.headers.Authorization; if (w === 2 || w === 3) h.assert(a === undefined, "no half credentials"); else { h.assert(a.startsWith("Basic "), "basic authentication"); const { base64Decode } = h.require("@langfuse/core"); h.assume(h.not(u.startsWith("\ufeff"))); h.assert(h.eq(base64Decode(a.slice(6)), u + ":" + p), "the given credentials"); }
      },
    },
  ],
};
