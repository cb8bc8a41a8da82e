"use strict";
const hexDigit = (h, c) => h.or(h.and(c >= 48, c <= 57), h.and(c >= 97, c <= 102));
function isHex(h, s, n) { if (!h.concrete(h.eq(s.length, n))) return false; const cs = []; for (let i = 0; i < n; i++) cs.push(hexDigit(h, s.charCodeAt(i))); return h.and(cs); }
function isUuid(h, s) {
  if (!h.concrete(h.eq(s.length, 36))) return false; const cs = [];
  for (let i = 0; i < 36; i++) { const c = s.charCodeAt(i); if (i === 8 || i === 13 || i === 18 || i === 23) cs.push(h.eq(c, 45)); else if (i === 14) cs.push(h.eq(c, 52)); else if (i === 19) cs.push(h.or(h.eq(c, 56), h.eq(c, 57), h.eq(c, 97), h.eq(c, 98))); else cs.push(hexDigit(h, c)); }
  return h.and(cs);
}
// value of a two-digit hex text, over character codes
const unhex = (h, s, i) => { const d = (c) => h.ite(c <= 57, c - 48, c - 87); return 16 * d(s.charCodeAt(2 * i)) + d(s.charCodeAt(2 * i + 1)); };
const spells = (h, s, bytes) => h.and(bytes.map((b, i) => h.eq(unhex(h, s, i), b)));
// UTF-8 of a string without surrogates
const utf8 = (s) => { const out = []; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); if (c < 128) out.push(c); else if (c < 2048) out.push(192 + Math.floor(c / 64), 128 + (c % 64)); else out.push(224 + Math.floor(c / 4096), 128 + (Math.floor(c / 64) % 64), 128 + (c % 64)); } return out; };
module.exports = {
  assumptions: ["Math.random yields reals in [0, 1); SHA-256 is computed by the platform (its digest is symbolic where only its use matters)"],
  harnesses: [
    {
      name: "uuid draws", bounds: "all draws symbolic reals in [0,1); clock readings 0, 1, 15, 16, now and 2^53-1; with and without a performance clock", quick: { cases: [{ d: 0 }, { d: 1 }, { d: 15 }, { d: 1700000000000 }, { d: 9007199254740991 }] },
      run: async (h) => { const { generateUUID } = h.require("@langfuse/core"); h.clock(() => h.params.d); let n = 0; h.random(() => h.real("r" + n++, 0, 1, true)); const g = h.flag("perf") ? { performance: { now: () => 12345.678 } } : undefined; const id = generateUUID(g); h.assert(isUuid(h, id), "version 4 UUID"); },
    },
    {
      name: "uuid clock", bounds: "clock reading any integer from 0 to 2^53-1; all draws 0, just below 1, or symbolic", quick: { cases: [{ r: 0 }, { r: 0.9999999 }, { r: -1 }] },
      run: async (h) => { const { generateUUID } = h.require("@langfuse/core"); const d = h.int("d", 0, 9007199254740991); h.clock(() => d); let n = 0; h.random(() => (h.params.r < 0 ? h.real("r" + n++, 0, 1, true) : h.params.r)); h.assert(isUuid(h, generateUUID()), "version 4 UUID"); },
    },
    {
      name: "random ids", bounds: "all random bytes symbolic", quick: { cases: [{ k: "trace" }, { k: "experiment" }] },
      run: async (h) => {
        let n = 0; const bytes = []; h.randomBytes(() => { const b = h.int("b" + n++, 0, 255); bytes.push(b); return b; });
        if (h.params.k === "trace") { const { createTraceId } = h.require("@langfuse/tracing"); const seed = h.pick("seed", [undefined, ""]); const id = await createTraceId(seed); h.assert(isHex(h, id, 32), "32 hex digits"); h.assert(bytes.length === 16, "16 random bytes"); h.assert(spells(h, id, bytes), "every random bit is used"); }
        else { const { createExperimentId } = h.require("@langfuse/core"); const id = await createExperimentId(); h.assert(isHex(h, id, 16), "16 hex digits"); h.assert(bytes.length === 8, "8 random bytes"); h.assert(spells(h, id, bytes), "every random bit is used"); }
      },
    },
    {
      name: "seeded ids", bounds: "seed a symbolic string of 1..2 arbitrary units (UTF-8 encoded); digest symbolic", quick: { cases: [{ k: "trace" }, { k: "item" }] },
      run: async (h) => {
        const seed = h.string("seed", { min: 1, max: 2, bmp: true }); const calls = h.ctl.hashes; let n = 0; h.hash(() => { const out = []; for (let i = 0; i < 32; i++) out.push(h.int("h" + n++, 0, 255)); return out; });
        const f = h.params.k === "trace" ? h.require("@langfuse/tracing").createTraceId : h.require("@langfuse/core").createExperimentItemId; const len = h.params.k === "trace" ? 32 : 16; const id = await f(seed); h.assert(isHex(h, id, len), "hex digits"); h.assert(calls.length === 1, "one digest"); h.assert(spells(h, id, calls[0].d.slice(0, len / 2)), "leading part of the digest"); h.assert(h.eq(calls[0].b, utf8(seed)), "digest of the seed itself");
      },
    },
    {
      name: "determinism", bounds: "two seeds of up to 2 units and two JSON-like inputs of the same shape with symbolic leaves; digest modelled as an injective function of its input", quick: { cases: [{ k: "trace" }, { k: "item" }] },
      run: async (h) => {
        const val = (n) => { const k = h.choice(n + ".k", 5); const s = () => h.string(n, { max: 1, ranges: [[97, 122]] }); return k === 0 ? h.string(n, { min: 1, max: 2, bmp: true }) : k === 1 ? { a: s() } : k === 2 ? [s(), 1] : k === 3 ? h.int(n, -1, 1) : null; };
        const f = h.params.k === "trace" ? h.require("@langfuse/tracing").createTraceId : h.require("@langfuse/core").createExperimentItemId; const a = h.params.k === "trace" ? h.string("a", { min: 1, max: 2, bmp: true }) : val("a"), b = h.clone(a); const ida = await f(a), idb = await f(b); h.assert(h.eq(ida, idb), "the same id for equal inputs"); h.assert(isHex(h, ida, h.params.k === "trace" ? 32 : 16), "well-formed");
      },
    },
  ],
};
