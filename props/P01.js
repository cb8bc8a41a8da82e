"use strict";
const KEYS = { userId: "user.id", sessionId: "session.id", version: "langfuse.version", traceName: "langfuse.trace.name", environment: "langfuse.environment" };
const SCALARS = ["userId", "sessionId", "version", "traceName"];
// a value of any type; strings of any length
function anyValue(h, name) {
  const k = h.choice(name + ".kind", 11);
  if (k === 10) return { v: "\u{1F600}".repeat(h.pick(name + ".pairs", [60, 100, 101])) + "x", str: true }; // surrogate pairs around the limit
  if (k === 0) return { v: h.lstring(name + ".long"), str: true };
  if (k === 1) return { v: h.string(name, { max: 2 }), str: true };
  return { v: [undefined, null, 0, 42, true, false, {}, ["a"]][k - 2], str: false };
}
// does the oracle accept this scalar / tag / metadata value?
const okString = (h, a, allowEmpty) => (a.str ? h.and(a.v.length <= 200, allowEmpty ? true : a.v.length > 0) : false);
// reference for environments, written over character codes
function okEnv(h, s, max) {
  const n = s.length; // concrete after forking
  if (n < 1 || n > 40) return false;
  const cs = []; for (let i = 0; i < n; i++) { const c = s.charCodeAt(i); cs.push(h.or(h.and(c >= 97, c <= 122), h.and(c >= 48, c <= 57), h.eq(c, 45), h.eq(c, 95))); }
  const pre = "langfuse"; let starts = false;
  if (n >= pre.length) { const ps = []; for (let i = 0; i < pre.length; i++) ps.push(h.eq(s.charCodeAt(i), pre.charCodeAt(i))); starts = h.and(ps); }
  return h.and(h.and(cs), h.not(starts));
}
async function checkScope(h, L, params, expected, label) {
  const o = L.otel(h, {});
  const parent = o.start("active");
  let child; const token = { r: 1 };
  const throwing = h.flag("throws");
  const err = new Error("inner");
  let got;
  o.within(parent, () => {
    got = h.attempt(() => o.core.propagateAttributes(params, () => { child = o.start("child"); if (throwing) throw err; return token; }));
  });
  h.assert(throwing ? got.status === "rejected" && got.reason === err : got.status === "fulfilled" && got.value === token, label + ": result comes back unchanged");
  const after = o.start("after");
  h.observe("child", L.propagated(child)); h.observe("parent", L.propagated(parent));
  const exp = {}; for (const [k, ok, v] of expected) if (ok) exp[k] = v; // forks on validity
  h.assert(h.eq(L.propagated(child), exp), label + ": span started in the scope carries exactly the valid attributes");
  h.assert(h.eq(L.propagated(parent), exp), label + ": active span carries exactly the valid attributes");
  h.assert(h.eq(L.propagated(after), {}), label + ": span outside the scope carries none");
}
module.exports = {
  assumptions: ["the active context is kept by an AsyncLocalStorage context manager and spans are real OpenTelemetry SDK spans", "spans are sampled and recording", "logging output is discarded"],
  harnesses: [
    {
      name: "scalar values", bounds: "one attribute of any type (string of unbounded length and content, strings of surrogate pairs around the limit, 8 other values), the other three string attributes unbounded strings that are jointly valid or jointly too long; scope returning or throwing",
      quick: { cases: SCALARS.map((f) => ({ f })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const params = {}, expected = [];
        const f = h.params.f; const a = anyValue(h, f); params[f] = a.v; expected.push([KEYS[f], okString(h, a), a.v]);
        const long = h.flag("othersTooLong");
        for (const g of SCALARS) if (g !== f) { const v = h.lstring(g, { min: 1 }); h.assume(long ? v.length > 200 : v.length <= 200); params[g] = v; expected.push([KEYS[g], !long, v]); }
        await checkScope(h, L, params, expected, f);
      },
    },
    {
      name: "keys and lists", bounds: "metadata keys out of 10 awkward names (inherited ones, dotted, spaced, long, SDK-like) with a symbolic value, next to an invalid one; 0, 1, 11, 51 and 101 tags of which one is invalid; 60 metadata entries (concrete sizes)", quick: { cases: [{ m: "keys" }, { m: "tags" }, { m: "many" }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const m = h.params.m; const params = {}, expected = []; const s = h.string("s", { max: 1 });
        if (m === "keys") { const k = h.pick("k", ["constructor", "toString", "hasOwnProperty", "a.b", " a b ", "k".repeat(300), "langfuse.trace.name", "user.id", "0", "é€😀"]); params.metadata = { bad: "x".repeat(201), [k]: s, z: "last" }; expected.push(["langfuse.trace.metadata." + k, true, s], ["langfuse.trace.metadata.z", true, "last"]); }
        else if (m === "tags") { const n = h.pick("n", [0, 1, 11, 51, 101]), bad = h.choice("bad", 3); const t = Array.from({ length: n }, (x, i) => "t" + i); if (n) t[n - 1] = s; const all = t.slice(); if (bad === 1) all.splice(Math.floor(n / 2), 0, "y".repeat(201)); if (bad === 2) all.unshift(7); params.tags = all; expected.push(["langfuse.trace.tags", t.length > 0, t]); }
        else { params.metadata = {}; for (let i = 0; i < 60; i++) { params.metadata["k" + i] = i === 59 ? s : "v" + i; expected.push(["langfuse.trace.metadata.k" + i, true, params.metadata["k" + i]]); } params.userId = "u"; expected.push(["user.id", true, "u"]); }
        await checkScope(h, L, params, expected, m);
      },
    },
    {
      name: "environment content", bounds: "strings of 0..2 arbitrary UTF-16 units; 'langfuse'-like strings of 8..9 units differing anywhere; strings of 39..41 valid characters; non-strings",
      quick: { cases: [{ m: "short" }, { m: "lf" }, { m: "long" }, { m: "type" }] },
      run: async (h) => {
        const L = h.require("./lib.js"); let v, ok;
        if (h.params.m === "short") { v = h.string("env", { max: 2 }); }
        else if (h.params.m === "lf") { v = h.string("env", { min: 7, max: 9, chars: "langfuseA" }); h.assume(v.startsWith("lang")); }
        else if (h.params.m === "long") { v = "a".repeat(36) + h.string("env", { min: 3, max: 5, chars: "az09-_ A" }); }
        else { const a = anyValue(h, "env"); h.assume(!a.str); v = a.v; ok = false; }
        if (ok === undefined) ok = okEnv(h, v);
        const user = h.lstring("userId", { min: 1, max: 200 });
        await checkScope(h, L, { environment: v, userId: user }, [["langfuse.environment", ok, v], ["user.id", true, user]], "environment");
      },
    },
    {
      name: "tags", bounds: "up to 2 (quick) / 3 tags, each of any type or an unbounded string; non-empty user id beside them",
      quick: { cases: [{ n: 0 }, { n: 1 }, { n: 2 }] }, thorough: { cases: [{ n: 0 }, { n: 1 }, { n: 2 }, { n: 3 }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const tags = [], keep = [];
        for (let i = 0; i < h.params.n; i++) { const a = i === 0 ? anyValue(h, "tag" + i) : h.flag("short" + i) ? { v: h.lstring("tag" + i, { max: 200 }), str: true } : { v: h.pick("bad" + i, [7, null, { a: 1 }]), str: false }; tags.push(a.v); if (okString(h, a, true)) keep.push(a.v); }
        const user = h.lstring("userId", { min: 1, max: 200 });
        await checkScope(h, L, { tags, userId: user }, [["langfuse.trace.tags", keep.length > 0, keep], ["user.id", true, user]], "tags");
      },
    },
    {
      name: "metadata", bounds: "two distinct symbolic keys of 1 (quick) / 2 units with values of any type or unbounded strings",
      quick: { params: { k: 1 } }, thorough: { params: { k: 2 } },
      run: async (h) => {
        const L = h.require("./lib.js");
        const k1 = h.string("k1", { min: 1, max: h.params.k, ascii: true }), k2 = h.string("k2", { min: 1, max: h.params.k, ascii: true }); h.assume(h.not(h.eq(k1, k2)));
        const a = anyValue(h, "m1"), b = h.flag("second") ? { v: h.lstring("m2"), str: true } : { v: 5, str: false };
        const metadata = {}; metadata[k1] = a.v; metadata[k2] = b.v;
        const user = h.lstring("userId", { min: 1, max: 200 });
        await checkScope(h, L, { metadata, userId: user }, [["langfuse.trace.metadata." + k1, okString(h, a, true), a.v], ["langfuse.trace.metadata." + k2, okString(h, b, true), b.v], ["user.id", true, user]], "metadata");
      },
    },
    {
      name: "prompt link", bounds: "name of any type (strings 0..1 units), version any integer in -1e9..1e9, digit or other strings of 0..2 units, or another type; fallback set, unset or absent",
      quick: {},
      run: async (h) => {
        const L = h.require("./lib.js");
        const nk = h.choice("name.kind", 3); const name = nk === 0 ? h.string("name", { max: 1 }) : nk === 1 ? undefined : 5;
        const vk = h.choice("ver.kind", 5); const raw = vk === 0 ? h.int("ver", -1e9, 1e9) : vk === 1 ? h.string("ver", { max: 2, chars: "09 a-" }) : vk === 2 ? 1.5 : vk === 3 ? undefined : NaN;
        const fb = h.choice("fallback", 3); const prompt = { name, version: raw }; if (fb === 1) prompt.isFallback = true; if (fb === 2) prompt.isFallback = false;
        let ver = raw, vok = vk === 0;
        if (vk === 1) { vok = raw.length > 0; let n = 0; for (let i = 0; i < raw.length; i++) { const c = raw.charCodeAt(i); if (!(c >= 48 && c <= 57)) vok = false; n = n * 10 + (c - 48); } ver = n; }
        const ok = fb !== 1 && nk === 0 && name.length > 0 && vok;
        await checkScope(h, L, { prompt, userId: "u" }, [["langfuse.observation.prompt.name", ok, name], ["langfuse.observation.prompt.version", ok, ver], ["user.id", true, "u"]], "prompt");
      },
    },
    {
      name: "all attributes together", bounds: "every attribute given at once, each valid or (one symbolic one) invalid or absent, with the processor's own environment and release configured or not; texts of up to 1 symbolic unit; attributes of the span given at start beside them",
      quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const conf = h.flag("configured"); const o = L.otel(h, { params: conf ? { environment: "conf", release: "rel" } : {} }); const s = (n) => h.string(n, { min: 1, max: 1 }); const all = { userId: s("u"), sessionId: s("s"), version: s("v"), traceName: s("t"), environment: "prod", tags: ["a", s("tag")], metadata: { k: s("mk"), k2: "z" }, prompt: { name: s("pn"), version: h.int("pv", 0, 9) } };
        const exp = { "user.id": all.userId, "session.id": all.sessionId, "langfuse.version": all.version, "langfuse.trace.name": all.traceName, "langfuse.environment": "prod", "langfuse.trace.tags": all.tags, "langfuse.trace.metadata.k": all.metadata.k, "langfuse.trace.metadata.k2": "z", "langfuse.observation.prompt.name": all.prompt.name, "langfuse.observation.prompt.version": all.prompt.version };
        const F = { userId: ["user.id"], sessionId: ["session.id"], version: ["langfuse.version"], traceName: ["langfuse.trace.name"], environment: ["langfuse.environment"], tags: ["langfuse.trace.tags"], metadata: ["langfuse.trace.metadata.k", "langfuse.trace.metadata.k2"], prompt: ["langfuse.observation.prompt.name", "langfuse.observation.prompt.version"] }; const names = Object.keys(F); const w = h.choice("which", names.length + 1), how = h.choice("how", 3);
        if (w) { const f = names[w - 1]; for (const k of F[f]) delete exp[k]; if (how === 0) delete all[f]; else if (how === 1) all[f] = f === "tags" ? ["x".repeat(201)] : f === "metadata" ? { k: 5, k2: null } : f === "environment" ? "Langfuse!" : f === "prompt" ? { name: "p", version: 1, isFallback: true } : "y".repeat(201); else all[f] = f === "tags" ? [] : f === "metadata" ? {} : undefined; }
        if (conf && exp["langfuse.environment"] === undefined) exp["langfuse.environment"] = "conf"; exp["own.attr"] = "mine"; let child, deep; o.core.propagateAttributes(all, () => { child = o.tracer.startSpan("c", { attributes: { "own.attr": "mine" } }); deep = o.tracer.startSpan("d", { attributes: { "own.attr": "mine" } }, o.api.trace.setSpan(o.api.context.active(), child)); });
        h.assert(h.eq(L.propagated(child), exp), "exactly the valid attributes"); h.assert(h.eq(L.propagated(deep), exp), "on spans below too"); h.assert(child.attributes["langfuse.release"] === (conf ? "rel" : undefined), "release");
      },
    },
  ],
};
