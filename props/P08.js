"use strict";
const KEYS = [["langfuse.observation.input", "input"], ["langfuse.observation.output", "output"], ["langfuse.trace.input", "input"], ["langfuse.trace.output", "output"], ["langfuse.observation.metadata", "metadata"], ["langfuse.trace.metadata", "metadata"], ["langfuse.observation.metadata.k", "metadata"], ["langfuse.trace.metadata.input", "metadata"]];
const b64 = (l) => Buffer.from(l).toString("base64");
const refHash = (h, bytes) => b64(h.digest(h.bytes(bytes)));
const refId = (h, bytes) => refHash(h, bytes).replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
const tagOf = (h, type, bytes, source) => "@@@langfuseMedia:type=" + type + "|id=" + refId(h, bytes) + "|source=" + source + "@@@";
function pipeline(h, scope) {
  const L = h.require("./lib.js"); const ups = [];
  h.api(() => ({ media: { getUploadUrl: (r) => { ups.push(r); return Promise.resolve({ uploadUrl: null, mediaId: "x" }); }, patch: () => Promise.resolve() } }));
  const o = L.otel(h, { params: { mediaUploadEnabled: true }, scope }); return { o, ups };
}
async function runSpan(h, P, attrs) {
  const span = P.o.tracer.startSpan("s", { attributes: attrs }); span.end();
  const r = await h.settle(P.o.processor.forceFlush()); h.assert(r.status === "fulfilled", "processing never fails"); h.assert(P.o.exported.length === 1, "the span is exported");
  return span;
}
function checkUpload(h, ups, span, list) { // list: [{bytes,type,field}], each distinct one uploaded
  h.assert(ups.length === list.length, "one upload per distinct media");
  for (const m of list) h.assert(h.or(ups.map((u) => h.and(h.eq(u.sha256Hash, refHash(h, m.bytes)), h.eq(u.contentType, m.type), u.field === m.field, u.contentLength === m.bytes.length, u.traceId === span.spanContext().traceId, u.observationId === span.spanContext().spanId))), "uploaded with its own hash, type, field and span");
}
const bytes = (h, name, n) => Array.from({ length: n }, (_, i) => h.int(name + i, 0, 255));
const SEP = ['"', " ", ",", "}", "$&", "\\n", "<", "(data:", "data: a, ", '{"data:x":"'];
module.exports = {
  assumptions: ["SHA-256 is modelled as an injective function of the content", "a data URI in text is 'data:', a media type without white space, quotes, backslash, ',', ';' or ':', ';base64,' and its longest run of base64 characters; it is followed by something that cannot continue base64"],
  harnesses: [
    {
      name: "one data URI", bounds: "every field; contents of 1..3 arbitrary bytes (quick: 2); 10 texts before, 6 after; media types from 4, one containing '$&'",
      quick: { cases: KEYS.map(([k]) => ({ k, n: 2 })) }, thorough: { cases: KEYS.flatMap(([k]) => [1, 2, 3].map((n) => ({ k, n }))), timeS: 600 },
      run: async (h) => {
        const P = pipeline(h); const { k, n } = h.params; const l = bytes(h, "b", n); const type = h.pick("type", ["Image/PNG", "a/$&", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"]);
        const pre = h.pick("pre", SEP), post = h.pick("post", ["", '"', ",", " tail"]); const uri = "data:" + type + ";base64," + b64(l);
        const other = "user data:"; const span = await runSpan(h, P, { [k]: pre + uri + post, "other.attr": uri, "langfuse.observation.model.name": other });
        const a = P.o.exported[0].attributes; h.observe("v", a[k]);
        h.assert(h.eq(a[k], pre + tagOf(h, type, l, "base64_data_uri") + post), "replaced by its own tag, the rest identical");
        h.assert(h.eq(a["other.attr"], uri) && a["langfuse.observation.model.name"] === other, "other attributes untouched");
        checkUpload(h, P.ups, span, [{ bytes: l, type, field: KEYS.find((x) => x[0] === k)[1] }]);
      },
    },
    {
      name: "two data URIs", bounds: "two URIs in one value with equal or different types, the second's bytes independent of the first's, an extension of it (its text is a prefix), or equal; separators from 3; or the same two in two attributes",
      quick: { cases: [{ m: "free" }, { m: "ext" }, { m: "same" }, { m: "extrev" }, { m: "attrs" }] },
      run: async (h) => {
        const P = pipeline(h); const { m } = h.params; const l = bytes(h, "b", 3); const t1 = "image/png", t2 = h.pick("t2", ["image/png", "image/pngx"]);
        const l2 = m === "free" || m === "attrs" ? bytes(h, "c", 2) : m === "same" ? l : l.concat(bytes(h, "c", 1));
        const u1 = "data:" + t1 + ";base64," + b64(l), u2 = "data:" + t2 + ";base64," + b64(l2); const sep = h.pick("sep", ['","', " ", "$1"]);
        const g1 = tagOf(h, t1, l, "base64_data_uri"), g2 = tagOf(h, t2, l2, "base64_data_uri"); const K = "langfuse.observation.input", K2 = "langfuse.observation.output";
        const rev = m === "extrev"; const attrs = m === "attrs" ? { [K]: "x" + u1, [K2]: u2 + " y" } : { [K]: rev ? u2 + sep + u1 + sep + u2 : u1 + sep + u2 + sep + u1 };
        const span = await runSpan(h, P, attrs); const a = P.o.exported[0].attributes; h.observe("v", a[K]);
        if (m === "attrs") { h.assert(h.eq(a[K], "x" + g1) && h.eq(a[K2], g2 + " y"), "each replaced"); checkUpload(h, P.ups, span, [{ bytes: l, type: t1, field: "input" }, { bytes: l2, type: t2, field: "output" }]); return; }
        h.assert(h.eq(a[K], rev ? g2 + sep + g1 + sep + g2 : g1 + sep + g2 + sep + g1), "each occurrence replaced by its own tag");
        if (u1 === u2) checkUpload(h, P.ups, span, [{ bytes: l, type: t1, field: "input" }]); else checkUpload(h, P.ups, span, [{ bytes: l, type: t1, field: "input" }, { bytes: l2, type: t2, field: "input" }]);
      },
    },
    {
      name: "no or malformed media", bounds: "texts of up to 3 arbitrary units; 'data:' texts with a broken header or an impossible base64 length; numbers, booleans and string lists; hashing may fail",
      quick: { cases: [{ m: "text" }, { m: "bad" }, { m: "other" }, { m: "hash" }] },
      run: async (h) => {
        const P = pipeline(h); const m = h.params.m; const k = h.pick("k", [KEYS[0][0], KEYS[6][0]]); let v;
        if (m === "text") v = h.string("v", { max: 3 }); else if (m === "bad") { const c = h.string("c", { min: 1, max: 1 }); v = h.pick("shape", ["data:image/png;base64", "data:;base64,AAAA", "data:image/png,AAAA", "data:image/png;base64,A", "dat:image/png;base64,AAAA"]) + " " + c; }
        else if (m === "other") v = h.pick("v", [5, true, ["data:image/png;base64,AAAA"]]); else { v = "x data:image/png;base64,AAAA"; h.failHash(true); }
        const span = await runSpan(h, P, { [k]: v }); h.assert(h.eq(P.o.exported[0].attributes[k], v), "unchanged"); h.assert(P.ups.length === 0, "nothing uploaded");
      },
    },
    {
      name: "AI SDK parts", bounds: "scopes 'ai', 'gen_ai' and another; the four AI SDK attributes; two messages / parts: a file part with 1..2 arbitrary bytes and a second part that is another file, text equal to or containing the base64 text, a URL, null, of another type, or not decodable; canonical JSON",
      quick: { cases: ["ai.prompt.messages", "ai.prompt", "gen_ai.input.messages", "gen_ai.output.messages"].map((k) => ({ k })) },
      run: async (h) => {
        const { k } = h.params; const scope = h.pick("scope", ["ai", "gen_ai", "langfuse-sdk"]); const P = pipeline(h, scope); const v7 = k.startsWith("gen_ai"); const field = k.includes("output") ? "output" : "input";
        const l = bytes(h, "b", 2), l2 = bytes(h, "c", 1); const type = h.pick("type", ["image/PNG", "x/" + "long-".repeat(12) + "$'"]); const text = b64(l); const dataUri = v7 && h.flag("dataUri"); const img = !v7 && h.flag("image");
        const mk = (content, t) => (v7 ? { type: "blob", mime_type: t, content } : img ? { type: "file", mediaType: t, image: content } : { type: "file", mediaType: t, data: content });
        const kind = h.choice("second", 7); const second = kind === 0 ? mk(b64(l2), "a/b") : kind === 1 ? { type: "text", text: text } : kind === 2 ? { type: "text", text: "pre" + text + "post" } : kind === 3 ? mk("https://x.example/a.png", type) : kind === 4 ? null : kind === 5 ? mk("%%%", type) : mk(text, 7);
        const first = mk(dataUri ? "data:" + type + ";base64," + text : text, type); const order = h.flag("order"); const parts = order ? [first, second] : [second, first];
        const wrap = (ps) => [null, { role: "system", [v7 ? "parts" : "content"]: v7 ? 3 : "plain " }, { role: "user", [v7 ? "parts" : "content"]: ps }];
        const value = JSON.stringify(wrap(parts)); const span = await runSpan(h, P, { [k]: value, "gen_ai.x": 1 }); const got = P.o.exported[0].attributes[k]; h.observe("got", got);
        if (scope === "langfuse-sdk") { h.assert(h.eq(got, value), "spans of other scopes untouched"); h.assert(P.ups.length === 0, "no upload"); return; }
        const tag = tagOf(h, type, l, "bytes"); const e1 = mk(tag, type), e2 = kind === 0 ? mk(tagOf(h, "a/b", l2, "bytes"), "a/b") : second;
        h.assert(h.eq(JSON.parse(got), wrap(order ? [e1, e2] : [e2, e1])), "file parts replaced by their own tags, the rest identical");
        checkUpload(h, P.ups, span, kind === 0 ? [{ bytes: l, type, field }, { bytes: l2, type: "a/b", field }] : [{ bytes: l, type, field }]);
      },
    },
    {
      name: "AI SDK base64 texts", bounds: "contents whose base64 text contains or begins with words that also occur in addresses; with and without padding",
      quick: { cases: ["ai.prompt.messages", "ai.prompt", "gen_ai.input.messages", "gen_ai.output.messages"].map((k) => ({ k })) },
      run: async (h) => {
        const { k } = h.params; const P = pipeline(h, "ai"); const v7 = k.startsWith("gen_ai"), field = k.includes("output") ? "output" : "input"; const img = !v7 && h.flag("image"); const text = h.pick("text", ["AAAAhttp", "Ahttps//", "dataAAAA", "blobhttp", "QQ==", "QUI=", "+/+/", "null", "truehttpAA=="]); const l = []; const bin = atob(text); for (let i = 0; i < bin.length; i++) l.push(bin.charCodeAt(i));
        const mk = (c) => (v7 ? { type: "blob", mime_type: "a/b", content: c } : { type: "file", mediaType: "a/b", [img ? "image" : "data"]: c }); const wrap = (c) => [{ role: "user", [v7 ? "parts" : "content"]: [{ type: "text", text }, mk(c)] }]; const span = await runSpan(h, P, { [k]: JSON.stringify(wrap(text)), "gen_ai.x": 1 });
        h.assert(h.eq(JSON.parse(P.o.exported[0].attributes[k]), wrap(tagOf(h, "a/b", l, "bytes"))), "the file part is replaced by its own tag, the rest identical"); checkUpload(h, P.ups, span, [{ bytes: l, type: "a/b", field }]);
      },
    },
    {
      name: "AI SDK malformed values", bounds: "attribute texts of up to 3 symbolic characters over JSON's punctuation, and non-string values",
      quick: { cases: [{ k: "ai.prompt.messages" }, { k: "gen_ai.input.messages" }] },
      run: async (h) => { const P = pipeline(h, "ai"); const v = h.flag("text") ? h.string("v", { max: 3, chars: '[]{}"1,n:' }) : h.pick("other", [5, true, ["x"], "null", "[null]", '[{"content":[null]}]', '[{"parts":[1]}]', '{"content":[]}']); await runSpan(h, P, { [h.params.k]: v }); h.assert(h.eq(P.o.exported[0].attributes[h.params.k], v), "unchanged"); h.assert(P.ups.length === 0, "nothing uploaded"); },
    },
    {
      name: "mixed values", bounds: "one value (or several per-key metadata attributes, in any order) holding a good data URI with 2 symbolic bytes, an undecodable one, text, a non-string and a second good one, in each of 6 orders",
      quick: { cases: [{ m: "value" }, { m: "keys" }, { m: "tkeys" }] },
      run: async (h) => {
        const P = pipeline(h); const l = bytes(h, "b", 2), l2 = [1, 2, 3]; const good = { v: "data:image/png;base64," + b64(l), e: tagOf(h, "image/png", l, "base64_data_uri"), b: l }, good2 = { v: "data:a/b;base64," + b64(l2), e: tagOf(h, "a/b", l2, "base64_data_uri"), b: l2 }, bad = { v: "data:image/png;base64,A", e: "data:image/png;base64,A" }, text = { v: "no media", e: "no media" }, num = { v: 5, e: 5 };
        const items = h.pick("order", [[good, bad, good2, text, num], [bad, good, good2, num, text], [text, num, bad, good, good2], [num, good, text, good2, bad], [good2, good, bad, text, num], [text, good2, num, bad, good]]); const exp = {}, attrs = {}; const K = "langfuse.observation.input"; const base = h.params.m === "keys" ? "langfuse.observation.metadata." : "langfuse.trace.metadata.";
        if (h.params.m === "value") { attrs[K] = JSON.stringify(items.map((x) => x.v)); exp[K] = attrs[K]; for (const x of [good, good2]) exp[K] = exp[K].split(x.v).join(x.e); } else items.forEach((x, i) => { attrs[base + "k" + i] = x.v; exp[base + "k" + i] = x.e; }); if (h.params.m === "value") exp[K] = "[" + items.map((x) => (x === num ? "5" : '"' + x.e + '"')).join(",") + "]";
        const span = await runSpan(h, P, attrs); const got = {}; for (const k of Object.keys(exp)) got[k] = P.o.exported[0].attributes[k]; h.assert(h.eq(got, exp), "each good one replaced, the rest identical"); const field = h.params.m === "value" ? "input" : "metadata"; checkUpload(h, P.ups, span, [{ bytes: l, type: "image/png", field }, { bytes: l2, type: "a/b", field }]);
      },
    },
    {
      name: "AI SDK mixed messages", bounds: "each AI SDK attribute with three messages and up to four parts: unusable ones (data URI without base64, empty, undecodable, URL, other type, null) before and after a good one with 1 symbolic byte; all four attributes at once; pretty-printed JSON without media stays as it is",
      quick: { cases: ["ai.prompt.messages", "ai.prompt", "gen_ai.input.messages", "gen_ai.output.messages"].map((k) => ({ k })) },
      run: async (h) => {
        const { k } = h.params; const P = pipeline(h, h.pick("scope", ["ai", "gen_ai"])); const l = bytes(h, "b", 1); const v7 = k.startsWith("gen_ai"), field = k.includes("output") ? "output" : "input"; const mk = (c, t) => (v7 ? { type: "blob", mime_type: t, content: c } : { type: "file", mediaType: t, data: c }); const c = v7 ? "parts" : "content";
        const junk = h.pick("junk", [mk("data:text/plain,abc", "a/b"), mk("", "a/b"), mk("%", "a/b"), mk("http://x", "a/b"), mk("QUJD", null), mk(5, "a/b"), { type: "text", text: "QUJD" }, null, 7, "text", [], {}, v7 ? mk("data:a/b;base64,", "a/b") : mk(null, "a/b")]);
        const where = h.choice("where", 3);
        const good = mk(b64(l), "a/b"), tag = mk(tagOf(h, "a/b", l, "bytes"), "a/b"); const msgs = (g) => [{ role: "user", [c]: where === 0 ? [junk, g] : [junk] }, { role: "assistant", [c]: "text" }, junk, { role: "user", [c]: where === 1 ? [junk, junk, g, junk] : [] }, { role: "tool", [c]: where === 2 ? [g, junk] : [junk] }];
        const plain = JSON.stringify([{ role: "user", content: [{ type: "text", text: "x" }], parts: [{ type: "text" }] }], null, 2); const attrs = { "ai.prompt.messages": plain, "ai.prompt": plain, "gen_ai.input.messages": plain, "gen_ai.output.messages": plain }; attrs[k] = JSON.stringify(msgs(good), null, 1); const span = await runSpan(h, P, Object.assign({ "gen_ai.x": 1 }, attrs)); const a = P.o.exported[0].attributes;
        for (const x of Object.keys(attrs)) if (x !== k) h.assert(a[x] === plain, x + " without media unchanged"); h.assert(h.eq(JSON.parse(a[k]), msgs(tag)), "the good part replaced, the rest identical"); checkUpload(h, P.ups, span, [{ bytes: l, type: "a/b", field }]);
      },
    },
  ],
};
