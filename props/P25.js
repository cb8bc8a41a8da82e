"use strict";
const { client } = require("./lib.js");
const B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const ref = (id, type) => "@@@langfuseMedia:type=" + (type || "image/png") + "|id=" + id + "|source=bytes@@@";
const b64 = (bytes) => { let out = ""; const ch = (v) => (v < 26 ? String.fromCharCode(65 + v) : v < 52 ? String.fromCharCode(71 + v) : v < 62 ? String.fromCharCode(v - 4) : v === 62 ? "+" : "/"); for (let i = 0; i < bytes.length; i += 3) { const a = bytes[i], b = bytes[i + 1], c = bytes[i + 2]; out += ch(Math.floor(a / 4)) + ch((a % 4) * 16 + (b === undefined ? 0 : Math.floor(b / 16))) + (b === undefined ? "=" : ch((b % 16) * 4 + (c === undefined ? 0 : Math.floor(c / 64)))) + (c === undefined ? "=" : ch(c % 64)); } return out; };
const OUT = ["ok", "get", "net", "status", "body"];
// a server knowing media a and b; how each of them answers is symbolic
function server(h, o) {
  const media = {}; const gets = [], downloads = [];
  const { client: lf } = client(h, { media: { get: (id) => { gets.push(id); const m = media[id]; if (!m || m.how === "get") return Promise.reject(new Error("no media")); return Promise.resolve({ mediaId: id, contentType: m.type, url: "https://m/" + id }); } } });
  h.onFetch((url) => { downloads.push(url); const m = media[url.slice(10)]; if (m.how === "net") return Promise.reject(new Error("net")); const status = m.how === "status" ? m.status : 200; return Promise.resolve({ status, ok: status >= 200 && status < 300, arrayBuffer: () => (m.how === "body" ? Promise.reject(new Error("body")) : Promise.resolve(h.buffer(m.bytes))) }); });
  const add = (id, how, bytes, type) => { const m = { how, bytes, type }; if (how === "status") { m.status = h.int("st" + id, 100, 599); h.assume(h.not(h.eq(m.status, 200))); } media[id] = m; m.uri = how === "ok" ? "data:" + type + ";base64," + Buffer.from(bytes).toString("base64") : undefined; return m; };
  return { lf, add, gets, downloads, resolve: (obj, maxDepth) => lf.media.resolveReferences(Object.assign({ obj, resolveWith: "base64DataUri" }, maxDepth === undefined ? {} : { maxDepth })) };
}
module.exports = {
  assumptions: ["values are JSON-like (texts, numbers, flags, null, lists, plain objects); references do not contain further references", "the server answers in the documented shape"],
  harnesses: [
    {
      name: "texts", bounds: "text of up to 3 references to up to 2 media, malformed ones among them, with 0..2 symbolic units (no '@') before, between and after; each media fetchable or failing in 4 ways, any status",
      quick: { cases: [{ n: 1 }, { n: 2 }, { n: 3 }] }, thorough: { cases: [{ n: 1, deep: true }, { n: 2, deep: true }, { n: 3, deep: true }] }, mustReach: ["resolved", "kept"],
      run: async (h) => {
        const s = server(h); const a = s.add("a", h.pick("howa", h.params.n === 3 && !h.params.deep ? ["ok", "net"] : OUT), [h.int("a0", 0, 255), 36, 38], "image/png"), b = s.add("b", h.params.deep || h.params.n === 2 ? h.pick("howb", h.params.deep ? OUT : ["ok", "status"]) : "ok", [1], "text/$&x");
        const KIND = [ref("a"), ref("b", "text/plain"), "@@@langfuseMedia:type=image/png|id=|source=bytes@@@", "@@@langfuseMedia:x@@@", ref("zz"), "@@@langfuseMedia:", "@@@"];
        let text = h.params.n === 1 || h.params.deep ? h.string("p", { max: 2 }) : "x", want; h.assume(h.not(text.includes("@"))); want = text;
        for (let i = 0; i < h.params.n; i++) { const k = h.choice("k" + i, i === h.params.n - 1 ? KIND.length : h.params.n === 3 && !h.params.deep ? 3 : 5); const m = k === 0 ? a : k === 1 ? b : undefined; text += KIND[k]; want += m && m.uri ? m.uri : KIND[k]; if (m) h.reach(m.uri ? "resolved" : "kept"); const sep = h.params.n === 1 || (h.params.deep && i === 0) ? h.string("s" + i, { max: 1 }) : (i === 0 ? h.pick("s" + i, ["", "y"]) : ""); h.assume(h.not(sep.includes("@"))); text += sep; want += sep; }
        const st = await h.settle(s.resolve(text)); h.assert(st.status === "fulfilled", "not rejected by a bad reference"); h.observe("v", st.value); h.assert(h.eq(st.value, want), "exactly the resolvable references are replaced"); h.assert(s.gets.every((g) => g === "a" || g === "b" || g === "zz"), "only referenced media is asked for");
      },
    },
    {
      name: "text without references", bounds: "symbolic texts of up to 4 units, and of up to 2 units around 9 near-miss pieces", quick: {},
      run: async (h) => {
        const s = server(h); const piece = h.pick("piece", ["", "@@@", "@@@langfuseMedia:", "langfuseMedia:type=image/png|id=a|source=bytes", "@@langfuseMedia:type=image/png|id=a|source=bytes@@@", "@@@langfuseMedia:type=image/png|id=a|source=bytes@@", "@@@langfusemedia:type=image/png|id=a|source=bytes@@@", "@@@langfuseMedia:id=a@@@", "@@@langfuseMedia:type=image/png|source=bytes@@@"]); const x = piece ? h.string("x", { max: 2 }) : h.string("x", { max: 4 }), y = piece ? h.string("y", { max: 1 }) : "";
        if (piece) h.assume(h.and(h.not(x.includes("@")), h.not(y.includes("@")))); const text = x + piece + y; const st = await h.settle(s.resolve(text)); h.assert(st.status === "fulfilled" && h.eq(st.value, text), "unchanged"); h.assert(s.gets.length === 0 && s.downloads.length === 0, "nothing fetched");
      },
    },
    {
      name: "structures", bounds: "8 shapes of nested lists and objects with symbolic keys (up to 2 units) and leaves; references at up to two leaves", quick: {},
      run: async (h) => {
        const s = server(h); const a = s.add("a", h.pick("howa", ["ok", "net", "get"]), [h.int("a0", 0, 255)], "image/png"), b = s.add("b", h.pick("howb", ["ok", "status"]), [2, 3], "application/pdf"); const R = { a: a.uri || ref("a"), b: b.uri || ref("b") };
        const k = h.string("k", { max: 2, bmp: true }), n = h.int("n", -9, 9), f = h.bool("f"); h.assume(h.and(h.not(h.eq(k, "z")), h.not(h.eq(k, "y")), h.not(h.eq(k, "__"))));
        const build = [(ra, rb) => ra, (ra, rb) => [ra, rb, n, null, [], {}], (ra, rb) => ({ [k]: ra, z: rb, y: f }), (ra, rb) => ({ [k]: [{ z: ra }, [rb, [n]]], y: { [k]: "t" } }), (ra, rb) => ({ z: { z: { z: [ra] } }, y: "p" + rb + "q" + ra }), (ra, rb) => [[[ra]], { [k]: { [k]: rb } }, undefined, f], (ra, rb) => ({ z: null, y: undefined, [k]: n }), (ra, rb) => n][h.choice("shape", 8)];
        const input = build(ref("a"), ref("b")), keep = build(ref("a"), ref("b")); h.freeze(input); const st = await h.settle(s.resolve(input)); h.assert(st.status === "fulfilled", "resolves"); h.assert(h.eq(st.value, build(R.a, R.b)), "replaced everywhere, everything else the same"); h.assert(h.eq(input, keep), "input untouched"); if (st.value && typeof st.value === "object") h.assert(st.value !== input, "a copy");
        if (st.value && typeof st.value === "object" && !Array.isArray(st.value)) h.assert(h.eq(Object.keys(st.value).length, Object.keys(keep).length), "same keys");
      },
    },
    {
      name: "depth", bounds: "references under 0..12 levels of lists or objects; depth limit default, or 0..11", quick: {},
      run: async (h) => {
        const s = server(h); const a = s.add("a", "ok", [h.int("a0", 0, 255)], "image/png"); const d = h.choice("d", 13), lim = h.choice("lim", 13), list = h.flag("list"); const wrap = (v) => { for (let i = 0; i < d; i++) v = list ? [v] : { x: v, i }; return v; };
        const st = await h.settle(s.resolve(wrap(ref("a")), lim === 12 ? undefined : lim)); const max = lim === 12 ? 10 : lim; h.assert(st.status === "fulfilled" && h.eq(st.value, wrap(d <= max ? a.uri : ref("a"))), "replaced exactly within the depth limit");
      },
    },
    {
      name: "many references", bounds: "one text of 1, 21 or 40 distinct references (or as many times the same), every one fetchable or one arbitrary one failing; content types in the reference with arbitrary parameters (symbolic, '@' and '=' among them); a list of 40 texts; a slow download among fast ones",
      quick: { cases: [{ n: 1 }, { n: 21 }, { n: 40 }] },
      run: async (h) => {
        const s = server(h); const n = h.params.n, bad = n === 1 ? -1 : h.pick("bad", [-1, 0, n - 1]), same = n > 1 && h.flag("same"), list = h.flag("list"), odd = n === 1 ? h.string("odd", { min: 1, max: 2, ascii: true }) : h.pick("odd", ["", "a@b", "=x"]);
        if (n === 1) h.assume(h.and(h.not(odd.includes("|")), h.not(odd.includes("@@")), h.not(h.eq(odd, "\r")), h.not(odd.includes("\n")), h.not(odd.includes("\r"))));
        const ms = Array.from({ length: same ? 1 : n }, (_, i) => s.add("m" + i, i === bad ? "net" : "ok", [i, 255 - i], "image/png")); const refs = Array.from({ length: n }, (_, i) => ref("m" + (same ? 0 : i), "image/png;n=" + odd + ";")), uris = refs.map((r, i) => ms[same ? 0 : i].uri || r);
        const st = await h.settle(s.resolve(list ? refs : "<" + refs.join(" ") + ">")); h.assert(st.status === "fulfilled", "resolves"); h.assert(h.eq(st.value, list ? uris : "<" + uris.join(" ") + ">"), "every reference is replaced by its own media");
      },
    },
    {
      name: "bytes", bounds: "0..4 (quick) / 0..8 arbitrary bytes; both in texts and through reference objects; any download status", quick: { params: { max: 4 } }, thorough: { params: { max: 8 } },
      run: async (h) => {
        const core = h.require("@langfuse/core"); const n = h.choice("n", h.params.max + 1), bytes = Array.from({ length: n }, (_, i) => h.int("b" + i, 0, 255)); const s = server(h);
        if (h.flag("text")) { const a = s.add("a", "ok", bytes, "image/png"); const st = await h.settle(s.resolve(ref("a"))); h.assert(st.status === "fulfilled", "resolved"); const p = "data:image/png;base64,"; h.assert(st.value.startsWith(p) && h.eq(Array.from(core.base64ToBytes(st.value.slice(p.length))), bytes), "exactly the fetched bytes"); return; }
        const status = h.int("status", 100, 599), net = h.flag("net"), type = h.string("type", { max: 2, ascii: true }); const ok = status >= 200 && status < 300; h.onFetch((u, i) => { h.assert(u === "https://u/1" && (!i || !i.method || i.method === "GET"), "its own address"); return net ? Promise.reject(new Error("net")) : Promise.resolve({ status, ok, arrayBuffer: () => Promise.resolve(h.buffer(bytes)) }); });
        const r = new core.LangfuseMediaReference({ mediaId: "m", contentType: type, url: "https://u/1", referenceString: "R" }); const w = h.choice("w", 3); const st = await h.settle(w === 0 ? r.fetchBytes() : w === 1 ? r.fetchBase64() : r.fetchDataUri());
        if (net || !ok) { h.assert(st.status === "rejected", "a failed download is an error"); return; } h.assert(st.status === "fulfilled", "downloaded"); const want = Buffer.from(bytes).toString("base64"); h.assert(w === 0 ? h.eq(Array.from(st.value), bytes) : h.eq(st.value, w === 1 ? want : "data:" + type + ";base64," + want), "exactly the bytes"); h.assert(r.toJSON() === "R", "serialises to its reference");
      },
    },
    {
      name: "expiry", bounds: "any expiry and clock within 10^7 ms of each other, threshold default or 0..3600 s; missing and unreadable expiries", quick: {},
      run: async (h) => {
        const { LangfuseMediaReference } = h.require("@langfuse/core"); const now = h.int("now", 1700000000000, 1700010000000), exp = h.int("exp", 1700000000000, 1700010000000), thr = h.flag("thr") ? h.int("t", 0, 3600) : undefined; h.setNow(now); const w = h.choice("w", 3);
        const r = new LangfuseMediaReference({ mediaId: "m", contentType: "a/b", url: "u", referenceString: "R", urlExpiry: w === 0 ? new h.globals.Date(exp).toISOString() : [undefined, "never"][w - 1] }); const v = thr === undefined ? r.isUrlExpired() : r.isUrlExpired(thr);
        if (w) h.assert(v === false, "never expires without an expiry"); else h.assert(h.iff(v, exp - now <= (thr === undefined ? 60 : thr) * 1000), "expired exactly within the threshold");
      },
    },
  ],
};
