"use strict";
const KEYS = { userId: "user.id", sessionId: "session.id", version: "langfuse.version", traceName: "langfuse.trace.name", environment: "langfuse.environment" };
const FIELDS = ["userId", "sessionId", "version", "traceName", "environment", "tags", "metadata", "prompt"];
// one scope's contribution for the field under test: absent, valid (symbolic) or invalid, and how it changes the expected state
function level(h, f, i, st, lite) {
  const params = { asBaggage: lite ? i === 1 : h.flag("baggage" + i) }; const next = Object.assign({}, st, { tags: st.tags.slice(), metadata: Object.assign({}, st.metadata) });
  const kind = h.choice("kind" + i, lite ? 2 : 3); // 0 absent, 1 valid, 2 invalid
  if (f === "tags") {
    if (kind === 1) {
      const t = [h.string("tag" + i + "a", { min: 1, max: 1, chars: "abc" })]; if (h.flag("two" + i)) t.push(h.string("tag" + i + "b", { min: 1, max: 1, chars: "abc" }));
      params.tags = t; next.hasTags = true;
      if (!st.hasTags) next.tags = t.slice(); // a scope with no outer tags keeps its list as given
      else { const out = []; for (const x of st.tags.concat(t)) { let dup = false; for (const y of out) if (x === y) dup = true; if (!dup) out.push(x); } next.tags = out; }
    } else if (kind === 2) params.tags = ["x".repeat(201)];
  } else if (f === "metadata") {
    if (kind === 1) { const k = h.string("mk" + i, { min: 1, max: 1, chars: "kl" }), v = h.string("mv" + i, { max: 1 }); params.metadata = {}; params.metadata[k] = v; params.metadata["own" + i] = "o"; next.metadata[k] = v; next.metadata["own" + i] = "o"; }
    else if (kind === 2) { params.metadata = { k: "y".repeat(201) }; }
  } else if (f === "prompt") {
    if (kind === 1) { const name = h.string("pn" + i, { min: 1, max: 1 }), version = h.int("pv" + i, 0, 9); params.prompt = { name, version }; next.prompt = { name, version }; }
    else if (kind === 2) params.prompt = { name: "fb", version: 1, isFallback: true };
  } else {
    if (kind === 1) { const v = f === "environment" ? h.string("v" + i, { min: 1, max: 1, chars: "abz09-_" }) : h.string("v" + i, { min: 1, max: 2 }); params[f] = v; next[f] = v; }
    else if (kind === 2) params[f] = f === "environment" ? "langfuse-x" : "z".repeat(201);
  }
  // the other scalar attributes alternate between the levels so that mix-ups show
  for (const g of ["userId", "sessionId", "version", "traceName"]) if (g !== f && (i === 0 ? g !== "version" : i === 1 ? g !== "userId" : false)) { params[g] = g + i; next[g] = g + i; }
  return [params, next];
}
function expected(st) {
  const o = {}; for (const k of Object.keys(KEYS)) if (st[k] !== undefined) o[KEYS[k]] = st[k];
  if (st.tags.length) o["langfuse.trace.tags"] = st.tags; for (const k of Object.keys(st.metadata)) o["langfuse.trace.metadata." + k] = st.metadata[k];
  if (st.prompt) { o["langfuse.observation.prompt.name"] = st.prompt.name; o["langfuse.observation.prompt.version"] = st.prompt.version; }
  return o;
}
const none = () => ({ tags: [], metadata: {} });
module.exports = {
  assumptions: ["spans are real OpenTelemetry SDK spans; the context manager is AsyncLocalStorage based", "tags inside one scope are kept as given; duplicates are removed when scopes merge"],
  harnesses: [
    {
      name: "synchronous nesting", bounds: "two or three (quick: three with valid or absent values only) nested scopes; the field under test absent, valid with symbolic value, or invalid at each level, with or without baggage; innermost scope returns or throws; tags: up to 2 of 3 letters per scope; metadata: one symbolic and one own key per scope",
      quick: { cases: FIELDS.map((f) => ({ f, n: 2 })).concat(FIELDS.map((f) => ({ f, n: 3, lite: 1 }))) }, thorough: { cases: FIELDS.map((f) => ({ f, n: 3 })), timeS: 900 },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const f = h.params.f, n = h.params.n;
        const throws = !h.params.lite && h.flag("throws"); const boom = new Error("boom");
        const levels = []; let st = none(); for (let i = 0; i < n; i++) { const r = level(h, f, i, st, h.params.lite); levels.push(r); st = r[1]; }
        const check = (name, s) => { const sp = o.start(name); h.observe(name, L.propagated(sp)); h.assert(h.eq(L.propagated(sp), expected(s)), f + ": " + name); };
        const enter = (i) => {
          if (i === n) { if (throws) throw boom; return "done"; }
          return o.core.propagateAttributes(levels[i][0], () => {
            check("inside scope " + i, levels[i][1]);
            const r = h.attempt(() => enter(i + 1));
            check("in scope " + i + " after the inner one ended", levels[i][1]);
            if (r.status === "rejected") throw r.reason; return r.value;
          });
        };
        check("before every scope", none());
        const r = h.attempt(() => enter(0));
        h.assert(throws ? r.status === "rejected" && r.reason === boom : r.value === "done", f + ": outcome passes through");
        check("after every scope", none());
      },
    },
    {
      name: "concurrent scopes", bounds: "two asynchronous scopes, each with a nested one, with one symbolic user id / tag / metadata value each; every interleaving of their four suspension points (symbolic schedule); the first may reject",
      quick: {}, mustReach: ["interleaved"],
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {});
        const gates = [[h.deferred(), h.deferred()], [h.deferred(), h.deferred()]]; const fails = h.flag("fails"); const boom = new Error("boom");
        const ids = [h.string("u0", { min: 1, max: 1 }), h.string("u1", { min: 1, max: 1 })], seen = [];
        const check = (name, s) => { const sp = o.start(name); seen.push(name); h.assert(h.eq(L.propagated(sp), expected(s)), name); };
        const task = (i) => o.core.propagateAttributes({ userId: ids[i], tags: ["t" + i], metadata: { ["m" + i]: "1" } }, async () => {
          const outer = Object.assign(none(), { userId: ids[i], tags: ["t" + i], metadata: { ["m" + i]: "1" } });
          check("task " + i + " start", outer);
          try {
            await o.core.propagateAttributes({ sessionId: "s" + i, tags: ["in"], metadata: { ["m" + i]: "2" } }, async () => {
              await gates[i][0].promise; check("task " + i + " inner", Object.assign(none(), { userId: ids[i], sessionId: "s" + i, tags: ["t" + i, "in"], metadata: { ["m" + i]: "2" } })); if (fails && i === 0) throw boom;
            });
          } catch (e) { if (e !== boom) throw e; }
          await gates[i][1].promise; check("task " + i + " after inner", outer); return i;
        });
        const ps = [task(0), task(1)]; check("outside while both run", none());
        const pos = [0, 0];
        for (let s = 0; s < 4; s++) { let who = 0; if (pos[0] === 2) who = 1; else if (pos[1] === 2) who = 0; else who = h.choice("who" + s, 2); gates[who][pos[who]].resolve(); pos[who]++; await h.tick(); if (s === 1 && pos[0] === 1) h.reach("interleaved"); check("outside step " + s, none()); }
        const rs = [await h.settle(ps[0]), await h.settle(ps[1])];
        h.assert(rs[0].value === 0 && rs[1].value === 1, "results");
      },
    },
  ],
};
