"use strict";
// reference: one character of (URL-safe) base64 for a 6-bit value, written as arithmetic over the byte values
const sextet = (h, v, url) => h.ite(v < 26, v + 65, h.ite(v < 52, v + 71, h.ite(v < 62, v - 4, h.ite(h.eq(v, 62), url ? 45 : 43, url ? 95 : 47))));
function refId(h, d) { // codes of the first 22 characters
  const out = []; for (let i = 0; out.length < 22; i += 3) { const a = d[i], b = d[i + 1], c = d[i + 2]; out.push(Math.floor(a / 4), (a % 4) * 16 + Math.floor(b / 16), (b % 16) * 4 + Math.floor(c / 64), c % 64); }
  return out.slice(0, 22).map((v) => sextet(h, v, true));
}
const TYPES = ["image/png", "application/pdf", "text/plain"];
const hexBytes = (h, name, n) => Array.from({ length: n }, (_, i) => h.int(name + i, 0, 255));
module.exports = {
  harnesses: [
    {
      name: "base64 bytes round trip", bounds: "byte sequences of length 0..4 (quick) / 0..7, every byte value",
      quick: { cases: [{ n: 0 }, { n: 1 }, { n: 2 }, { n: 3 }, { n: 4 }] }, thorough: { cases: [0, 1, 2, 3, 4, 5, 6, 7].map((n) => ({ n })) },
      run: async (h) => {
        const { bytesToBase64, base64ToBytes } = h.require("@langfuse/core");
        const l = hexBytes(h, "b", h.params.n);
        const s = bytesToBase64(h.bytes(l));
        h.observe("s", s);
        const back = base64ToBytes(s);
        h.assert(h.eq(Array.from(back), l), "bytes -> base64 -> bytes");
        h.assert(s.length === Math.ceil(l.length / 3) * 4, "base64 length");
      },
    },
    {
      name: "long contents", bounds: "contents of 8191..8193, 32767..32769, 65537 and 200001 bytes and texts of the same lengths (concrete, of varied bytes); data URI and tag of the same",
      quick: { cases: [8192, 32768, 65537, 200001].map((n) => ({ n })) },
      run: async (h) => {
        if (h.params.n < 100000 && h.flag("browser")) h.global("Buffer", undefined); const core = h.require("@langfuse/core"); const n = h.params.n > 60000 ? h.params.n : h.params.n - 1 + h.choice("d", 3); const a = new Uint8Array(n); for (let i = 0; i < n; i++) a[i] = (i * 7 + (i >> 8)) & 255; const s = core.bytesToBase64(a); h.assert(s.length === Math.ceil(n / 3) * 4, "base64 length"); const back = core.base64ToBytes(s); let same = back.length === n; for (let i = 0; same && i < n; i++) if (back[i] !== a[i]) same = false; h.assert(same, "bytes -> base64 -> bytes"); const text = "aé€".repeat(Math.ceil(n / 3)); h.assert(core.base64Decode(core.base64Encode(text)) === text, "text -> base64 -> text");
        const m = new core.LangfuseMedia({ source: "bytes", contentBytes: a, contentType: "image/png" }); const uri = m.base64DataUri; h.assert(uri === "data:image/png;base64," + s, "data URI"); const m2 = new core.LangfuseMedia({ source: "base64_data_uri", base64DataUri: uri }); h.assert(m2.contentLength === n && m2.base64DataUri === uri && (await m2.getTag()) === (await m.getTag()).replace("source=bytes", "source=base64_data_uri"), "and back");
      },
    },
    {
      name: "text round trip", bounds: "strings of 0..2 (quick) / 0..3 UTF-16 units without lone surrogates",
      quick: { params: { max: 2 } }, thorough: { params: { max: 3 } },
      run: async (h) => {
        if (h.flag("browser")) h.global("Buffer", undefined);
        const { base64Encode, base64Decode } = h.require("@langfuse/core");
        const s = h.string("s", { max: h.params.max, bmp: true });
        h.assume(!s.startsWith("\ufeff"));
        const e = base64Encode(s); h.observe("e", e);
        h.assert(h.eq(base64Decode(e), s), "text -> base64 -> text");
      },
    },
    {
      name: "data URI round trip", bounds: "contents of 1..3 (quick) / 1..6 arbitrary bytes; content type from 3 names or 'a/' followed by up to 2 units other than ';' and ','",
      quick: { cases: [1, 2, 3].map((n) => ({ n })) }, thorough: { cases: [1, 2, 3, 4, 5, 6].map((n) => ({ n })) },
      run: async (h) => {
        const { LangfuseMedia } = h.require("@langfuse/core"); const l = hexBytes(h, "b", h.params.n); let type = h.pick("type", [...TYPES, null]);
        if (type === null) { const t = h.string("t", { max: 2, bmp: true }); h.assume(h.and(h.not(t.includes(";")), h.not(t.includes(",")))); type = "a/" + t; }
        const m = new LangfuseMedia({ source: "bytes", contentBytes: h.bytes(l), contentType: type }); const uri = m.base64DataUri; h.observe("uri", uri);
        h.assert(uri.startsWith("data:" + type + ";base64,"), "shape");
        const back = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: uri });
        h.assert(back._contentBytes !== undefined && h.eq(Array.from(back._contentBytes), l), "content comes back"); h.assert(h.eq(back._contentType, type), "type comes back"); h.assert(back.contentLength === l.length, "length");
        h.assert(h.eq(JSON.parse(JSON.stringify({ m }, (k, v) => v)).m, uri), "serialises to the data URI");
      },
    },
    {
      name: "tag round trip and id", bounds: "three consecutive digest bytes symbolic at each of five positions (the rest fixed), 1 symbolic content byte, content type from 3 names or 'a/' plus one unit other than '|' and '@', with parameters ('charset=utf-8') or not; either source",
      quick: { cases: [0, 3, 6, 12, 14].map((at) => ({ at })) }, thorough: { cases: Array.from({ length: 30 }, (_, at) => ({ at })) },
      run: async (h) => {
        const { LangfuseMedia } = h.require("@langfuse/core"), { MediaManager } = h.require("@langfuse/client"); const at = h.params.at;
        const dig = Array.from({ length: 32 }, (_, i) => (i >= at && i < at + 3 ? h.int("d" + i, 0, 255) : (i * 37 + 11) % 256)); h.hash(() => dig);
        let type = h.pick("type", [...TYPES, null]); if (type === null) { const t = h.string("t", { min: 1, max: 1, ascii: true }); h.assume(h.and(h.not(t.includes("|")), h.not(t.includes("@")), h.not(t.includes(";")), h.not(t.includes(",")))); type = "a/" + t; }
        let src = h.flag("uri"); if (!src && h.flag("params")) type = "text/plain;charset=utf-8;x=" + type; const b = h.int("b", 0, 255);
        const m = src ? new LangfuseMedia({ source: "base64_data_uri", base64DataUri: "data:" + type + ";base64," + Buffer.from([b]).toString("base64") }) : new LangfuseMedia({ source: "bytes", contentBytes: h.bytes([b]), contentType: type });
        const id = await m.getId(), tag = await m.getTag(); h.observe("tag", tag);
        h.assert(id.length === 22, "22 characters"); const ref = refId(h, dig); const cs = []; for (let i = 0; i < 22; i++) cs.push(h.eq(id.charCodeAt(i), ref[i])); h.assert(h.and(cs), "id is the leading part of the URL-safe base64 digest");
        h.assert(h.eq(tag, "@@@langfuseMedia:type=" + type + "|id=" + id + "|source=" + (src ? "base64_data_uri" : "bytes") + "@@@"), "tag");
        h.assert(h.eq(MediaManager.parseReferenceString(tag), { mediaId: id, source: src ? "base64_data_uri" : "bytes", contentType: type }), "the tag parses back");
        const again = await m.getId(); h.assert(h.eq(again, id), "id is stable");
      },
    },
    {
      name: "malformed data URIs", bounds: "texts of a prefix ('data:', one of its characters replaced, or nothing), a header of up to 3 units of {a / ; base64} pieces, an optional comma and a body of up to 5 units over {A b + = , space -}",
      quick: { cases: [{ m: "prefix" }, { m: "header" }, { m: "body", n: 0 }, { m: "body", n: 2 }, { m: "body", n: 4 }] }, thorough: { cases: [{ m: "prefix" }, { m: "header" }, ...[0, 1, 2, 3, 4, 5].map((n) => ({ m: "body", n }))] },
      run: async (h) => {
        const { LangfuseMedia } = h.require("@langfuse/core"); const m = h.params.m; let uri, ok, type, body = "QUJD";
        if (m === "prefix") { const i = h.choice("i", 5), c = h.string("c", { max: 1 }); const p = "data:".slice(0, i) + c + "data:".slice(i + 1); ok = p === "data:"; type = "image/png"; uri = p + "image/png;base64," + body; }
        else if (m === "header") { const parts = []; const n = h.choice("n", 4); for (let i = 0; i < n; i++) parts.push(h.pick("p" + i, ["a/b", "base64", "x=1", "", "BASE64", "a,b"])); const comma = h.flag("comma"); uri = "data:" + parts.join(";") + (comma ? "," : "") + body; type = parts[0]; ok = comma && n > 0 && type !== "" && parts.slice(1).includes("base64") && !parts.includes("a,b"); }
        else { body = h.params.n === 0 ? "" : h.string("body", { min: h.params.n, max: h.params.n, chars: "Ab+=, -" }); uri = "data:a/b;base64," + body; type = "a/b"; const d = h.attempt(() => atob(body)); ok = d.status === "fulfilled" && body !== ""; if (ok) { const l = []; for (let i = 0; i < d.value.length; i++) l.push(d.value.charCodeAt(i)); body = l; } }
        const md = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: uri });
        const want = m === "body" ? body : [65, 66, 67];
        h.observe("type", md._contentType);
        if (ok) h.assert(md._contentBytes !== undefined && h.eq(Array.from(md._contentBytes), want) && h.eq(md._contentType, type), "well-formed: own content and type");
        else { h.assert(md._contentBytes === undefined && md._contentType === undefined && md.base64DataUri === null && md.contentLength === undefined, "malformed: no content"); h.assert((await md.getId()) === null && (await md.getTag()) === null, "malformed: no id"); }
      },
    },
    {
      name: "malformed reference strings", bounds: "up to 4 distinct fields among type, id, source, another and an empty key, in any order, each with or without '=', values of up to 2 symbolic units; prefix and suffix complete, with one unit replaced, missing, or with further text before or after",
      quick: { cases: [{ n: 3 }, { n: 2 }, { m: "ends" }] }, thorough: { cases: [{ n: 4 }, { n: 3 }, { n: 2 }, { m: "ends" }], timeS: 900 },
      run: async (h) => {
        const { MediaManager } = h.require("@langfuse/client"); let pre = "@@@langfuseMedia:", suf = "@@@", ok = true; const got = {};
        const fields = [];
        if (h.params.m === "ends") {
          for (const k of ["type", "id", "source"]) { fields.push(k + "=v"); got[k] = "v"; }
          const w = h.choice("w", 6); if (w === 4) { const c = h.string("c", { min: 1, max: 2 }); h.assume(h.not(c.endsWith("@"))); suf += c; } else if (w === 5) { pre = h.string("c", { min: 1, max: 1 }) + pre; } else if (w === 0) { const i = h.choice("i", 17), c = h.string("c", { max: 1 }); pre = pre.slice(0, i) + c + pre.slice(i + 1); } else if (w === 1) { const i = h.choice("i", 3), c = h.string("c", { max: 1 }); suf = suf.slice(0, i) + c + suf.slice(i + 1); } else if (w === 2) pre = ""; else suf = "";
          ok = pre === "@@@langfuseMedia:" && (suf === "@@@" );
        } else {
          const keys = ["type", "id", "source", "size", ""]; const used = [];
          for (let i = 0; i < h.params.n; i++) { const left = keys.filter((k) => !used.includes(k)); const k = left[h.choice("k" + i, left.length)]; used.push(k); const eq = h.flag("eq" + i); const v = eq ? h.string("v" + i, { max: 1 }) : ""; if (eq) { h.assume(h.and(h.not(v.includes("|")), h.not(v.includes("=")))); got[k] = v; } fields.push(k + (eq ? "=" + v : "")); }
        }
        const r = h.attempt(() => MediaManager.parseReferenceString(pre + fields.join("|") + suf));
        const full = ok && !!got.type && !!got.id && !!got.source;
        if (full) { h.assert(r.status === "fulfilled", "complete reference accepted"); h.assert(h.eq(r.value, { mediaId: got.id, source: got.source, contentType: got.type }), "own fields"); }
        else h.assert(r.status === "rejected", "incomplete reference rejected");
      },
    },
    {
      name: "hash failure", bounds: "1 symbolic byte; digest fails",
      quick: {},
      run: async (h) => { const { LangfuseMedia } = h.require("@langfuse/core"); h.failHash(true); const m = new LangfuseMedia({ source: "bytes", contentBytes: h.bytes([h.int("b", 0, 255)]), contentType: "image/png" }); h.assert((await m.getId()) === null && (await m.getTag()) === null, "no id, no tag"); },
    },
  ],
};
