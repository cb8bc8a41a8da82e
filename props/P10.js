"use strict";
// a server under the harness' control: every request is recorded and answered when the harness says so
function server(h) {
  const fetches = []; let n = 0;
  const api = { prompts: {
    get: (name, req, opts) => { const d = h.deferred(); const r = req || {}; const f = { name, version: r.version, label: r.label, opts, d, n: n++, open: true }; fetches.push(f); return d.promise; },
    delete: async (name, req) => undefined, create: async (b) => b,
  }, promptVersion: { update: async (name, version, req) => ({ name, version, labels: req.newLabels }) } };
  return { api, fetches };
}
const answer = (f, chat) => { const base = { name: f.name, version: f.version === undefined ? 100 + f.n : f.version, labels: [f.label === undefined ? "production" : f.label], tags: ["t" + f.n], config: { n: f.n } }; return chat ? Object.assign({ type: "chat", prompt: [{ role: "user", content: "answer " + f.n }] }, base) : Object.assign({ type: "text", prompt: "answer " + f.n }, base); };
// the client object stands for exactly that answer
function stands(h, client, data) {
  if (!client || client.isFallback !== false || client.type !== data.type) return false;
  const text = data.type === "chat" ? h.eq(client.compile({}), [{ role: "user", content: data.prompt[0].content }]) : h.eq(client.prompt, data.prompt);
  return h.and(text, h.eq(client.name, data.name), h.eq(client.version, data.version), h.eq(client.labels, data.labels), h.eq(client.tags, data.tags), h.eq(client.config, data.config));
}
const SELS = [{}, { label: "production" }, { label: "b" }, { version: 1 }, { version: 2 }];
const selKey = (s) => (s.version !== undefined ? "v" + s.version : s.label !== undefined ? "l" + s.label : "lproduction");
module.exports = {
  assumptions: ["time is read from Date.now(); at the very millisecond at which an entry's lifetime ends either answer is accepted"],
  harnesses: [
    {
      name: "histories", bounds: "every history of 4 (quick) / 6 (thorough) steps after one cached fetch, over gets of 2 names x up to 3 selections with default, zero or symbolic lifetime (0.001..100 s), time passing by a symbolic amount (0..200000 ms), update, delete, and each outstanding request answered or failed in any order",
      quick: { cases: ["get0", "get1", "time", "inval"].flatMap((first) => [{ steps: 4, first, names: 1 }]).concat([{ steps: 3, first: "any", names: 2 }]), timeS: 60 },
      thorough: { cases: ["get0", "get1", "time", "inval"].flatMap((first) => ["get0", "get1", "time", "inval", "answer"].map((second) => ({ steps: 5, first, second, names: 1 }))).concat([{ steps: 4, first: "any", names: 2 }]), timeS: 840 },
      mustReach: ["hit", "stale", "miss", "race"],
      run: async (h) => {
        const { PromptManager } = h.require("@langfuse/client"); const P = h.params; const sv = server(h); const pm = new PromptManager({ apiClient: sv.api });
        const names = P.names === 2 ? ["foo", "foobar"] : ["foo"]; const sels = P.names === 2 ? [{}] : [{}, { version: 1 }];
        const entries = new Map(), gen = new Map(), refreshing = new Map(), waiting = []; let uses = 0;
        const clash = [];
        const open = () => sv.fetches.filter((f) => f.open);
        const get = async (name, sel, ttl) => {
          const key = name + "|" + selKey(sel); const before = sv.fetches.length; const opts = Object.assign({}, sel); if (ttl !== undefined) opts.cacheTtlSeconds = ttl;
          const p = pm.get(name, opts); const st = await h.settle(p); const made = sv.fetches.slice(before); const e = entries.get(key); let expired = false;
          if (e && !(ttl === 0)) { h.assume(h.not(h.eq(h.now(), e.expiry))); expired = h.concrete(h.now() > e.expiry); }
          const issue = (f, refresh) => { h.assert(h.eq({ name: f.name, version: f.version, label: f.label }, { name, version: sel.version, label: sel.label }), "the request asks for exactly the prompt wanted"); f.key = key; f.gen = gen.get(name) || 0; f.ttl = ttl === undefined ? 60 : ttl; f.refresh = refresh; f.p = p; if (refresh) refreshing.set(key, f); else waiting.push(f); };
          if (!e || ttl === 0) { h.reach("miss"); h.assert(made.length === 1 && st.status === "pending", "not cached: one request, result waits for it"); issue(made[0], false); }
          else if (expired) {
            h.reach("stale"); h.assert(st.status === "fulfilled", "stale prompt at once"); h.assert(stands(h, st.value, e.data), "the stale prompt of this key");
            if (refreshing.get(key)) h.assert(made.length === 0, "one refresh at a time"); else { h.assert(made.length === 1, "a refresh starts"); issue(made[0], true); }
          } else { h.reach("hit"); h.assert(made.length === 0 && st.status === "fulfilled", "fresh: no request"); h.assert(stands(h, st.value, e.data), "the prompt fetched for this key"); }
        };
        const settleFetch = async (f, ok) => {
          f.open = false; const data = answer(f, f.n % 2 === 1); if (ok) f.d.resolve(data); else f.d.reject(new Error("down " + f.n)); await h.tick();
          if (f.refresh) refreshing.delete(f.key);
          else { const st = await h.settle(f.p); if (ok) { h.assert(st.status === "fulfilled", "answered"); h.assert(stands(h, st.value, data), "the answer of its own request"); } else h.assert(st.status === "rejected" && st.reason.message === "down " + f.n, "the failure is raised"); }
          if (ok) { if ((gen.get(f.name) || 0) === f.gen) entries.set(f.key, { data, expiry: h.now() + f.ttl * 1000 }); else h.reach("race"); }
        };
        const step = async (kind, i) => {
          if (kind === "get0" || kind === "get1") { const name = names[h.choice("name" + i, names.length)], sel = sels[h.choice("sel" + i, sels.length)]; const w = kind === "get0" ? 0 : h.choice("ttlk" + i, 2); await get(name, sel, kind === "get1" ? (w === 0 ? 0 : h.int("ttl" + i, 1, 100)) : undefined); }
          else if (kind === "time") h.setNow(h.now() + h.int("dt" + i, 0, 200000));
          else if (kind === "inval") { const name = names[h.choice("iname" + i, names.length)]; if (i % 2 === 0) await pm.update({ name, version: 1, newLabels: ["x"] }); else await pm.delete(name); gen.set(name, (gen.get(name) || 0) + 1); for (const k of [...entries.keys()]) if (k.startsWith(name + "|")) entries.delete(k); }
          else if (kind === "answer") { const l = open(); if (!l.length) { h.assume(false); return; } await settleFetch(l[h.choice("which" + i, l.length)], h.flag("ok" + i)); }
        };
        const kinds = ["get0", "get1", "time", "inval", "answer"];
        // start from one cached entry, so that short histories reach refreshes and invalidations
        await get(names[names.length - 1], {}, undefined); await settleFetch(sv.fetches[0], true);
        for (let i = 0; i < P.steps; i++) { const forced = i === 0 && P.first !== "any" ? P.first : i === 1 && P.second ? P.second : undefined; let ks = kinds; if (!open().length) ks = ks.filter((k) => k !== "answer"); await step(forced || ks[h.choice("op" + i, ks.length)], i); }
        for (const f of open()) await settleFetch(f, true);
        for (const n of names) await get(n, sels[0], undefined);
      },
    },
    {
      name: "keys", bounds: "two requests whose names are 'a', 'ab', or 'a' plus a key-like suffix or two symbolic units, each with no selection, a version (0..3), or a label of up to 2 symbolic units or a key-like text",
      quick: { cases: [{ m: "lit" }, { m: "sym" }, { m: "sel" }], timeS: 40 },
      run: async (h) => {
        const { PromptManager } = h.require("@langfuse/client"); const sv = server(h); const pm = new PromptManager({ apiClient: sv.api }); const m = h.params.m;
        const mk = (i) => {
          let name, sel;
          if (m === "lit") { name = h.pick("name" + i, ["a", "a-label:x", "a-version:1", "a-label", "a\",\"label:x", "label:x"]); sel = h.pick("sel" + i, [{}, { version: 1 }, { label: "x" }, { label: "x-label:production" }, { label: "x-version:1" }, { label: "production" }, { label: "label:production" }]); }
          else if (m === "sym") { name = "a" + h.string("name" + i, { max: 2, bmp: true }); sel = h.pick("sel" + i, [{}, { label: "b" }]); }
          else { name = "a"; const k = h.choice("k" + i, 3); sel = k === 0 ? {} : k === 1 ? { version: h.int("v" + i, 0, 3) } : { label: h.string("l" + i, { max: 2, bmp: true }) }; }
          return { name, sel };
        };
        const a = mk(0), b = mk(1); const got = [];
        for (const r of [a, b]) { const before = sv.fetches.length; const p = pm.get(r.name, r.sel); await h.tick(); const made = sv.fetches.slice(before); for (const f of made) { f.open = false; f.d.resolve(answer(f)); } const st = await h.settle(p); h.assert(st.status === "fulfilled", "resolves"); got.push({ v: st.value, made: made.length, f: made[0] }); }
        const lab = (r) => (r.sel.version !== undefined ? null : r.sel.label !== undefined ? r.sel.label : "production");
        const same = h.and(h.eq(a.name, b.name), h.or(h.and(a.sel.version !== undefined && b.sel.version !== undefined, h.eq(a.sel.version, b.sel.version)), h.and(lab(a) !== null && lab(b) !== null, h.eq(lab(a), lab(b)))));
        h.assert(got[0].made === 1, "the first request is sent"); h.assert(stands(h, got[0].v, answer(got[0].f)), "first answer");
        if (got[1].made === 0) { h.assert(same, "served from cache only for the same name and selection"); h.assert(stands(h, got[1].v, answer(got[0].f)), "cached answer"); }
        else { h.assert(h.not(same), "an equal request is served from cache"); h.assert(got[1].made === 1, "one request"); h.assert(h.eq({ n: got[1].f.name, v: got[1].f.version, l: got[1].f.label }, { n: b.name, v: b.sel.version, l: b.sel.label }), "its own request"); h.assert(stands(h, got[1].v, answer(got[1].f)), "its own answer"); }
      },
    },
    {
      name: "invalidation by name", bounds: "two names of up to 2 symbolic units (one may be a prefix of the other), update or delete of one, then gets of both",
      quick: {},
      run: async (h) => {
        const { PromptManager } = h.require("@langfuse/client"); const sv = server(h); const pm = new PromptManager({ apiClient: sv.api });
        const x = "p" + h.string("x", { max: 1, bmp: true }), y = "p" + h.string("y", { max: 1, bmp: true }); const sel = h.pick("sel", [{}, { version: 3 }, { label: "l" }]);
        const get = async (n) => { const before = sv.fetches.length; const p = pm.get(n, sel); await h.tick(); for (const f of sv.fetches.slice(before)) f.d.resolve(answer(f)); await h.settle(p); return sv.fetches.length - before; };
        await get(x); if (h.flag("del")) await pm.delete(y, h.flag("all") ? {} : { version: 7 }); else await pm.update({ name: y, version: 7, newLabels: [] });
        h.assert(h.eq((await get(x)) === 1, h.eq(x, y)), "entries of the changed name, and only those, are dropped");
      },
    },
    {
      name: "fallback", bounds: "text or chat fallback of a symbolic text of up to 3 units (non-empty for text), version / label selections, with and without an earlier cached entry; the fetch fails",
      quick: {},
      run: async (h) => {
        const { PromptManager } = h.require("@langfuse/client"); const sv = server(h); const pm = new PromptManager({ apiClient: sv.api });
        const sel = h.pick("sel", SELS), kind = h.pick("kind", ["none", "text", "chat", "empty chat"]), t = h.string("t", { min: 1, max: 3 }); const opts = Object.assign({}, sel); const ttl0 = h.flag("ttl0"); if (ttl0) opts.cacheTtlSeconds = 0;
        if (kind === "text") opts.fallback = t; if (kind === "chat") { opts.type = "chat"; opts.fallback = [{ role: "user", content: t }, { role: "assistant", content: "x" }]; } if (kind === "empty chat") { opts.type = "chat"; opts.fallback = []; }
        let cached = ttl0 && h.flag("cached"); if (cached) { const p = pm.get("n", sel); await h.tick(); sv.fetches[0].d.resolve(answer(sv.fetches[0])); await h.settle(p); } const base = sv.fetches.length;
        const run = async () => { const before = sv.fetches.length; const p = pm.get("n", opts); await h.tick(); h.assert(sv.fetches.length === before + 1, "fetches: a fallback is not cached"); sv.fetches[before].d.reject(new Error("down")); return h.settle(p); };
        for (let i = 0; i < 2; i++) {
          const st = await run();
          if (kind === "none") { h.assert(st.status === "rejected" && st.reason.message === "down", "the error is raised"); continue; }
          h.assert(st.status === "fulfilled", "fallback returned"); const c = st.value; h.assert(c.isFallback === true && c.name === "n" && c.type === (kind === "text" ? "text" : "chat"), "marked as fallback");
          const content = kind === "text" ? c.prompt : c.prompt.map((m) => ({ role: m.role, content: m.content }));
          h.assert(h.eq(content, opts.fallback), "fallback content");
          h.assert(c.version === (sel.version === undefined ? 0 : sel.version), "the requested version, or 0"); h.assert(h.eq(c.labels, sel.label === undefined ? [] : [sel.label]), "the requested label only"); h.assert(h.eq(c.tags, []) && h.eq(c.config, {}), "no tags or configuration made up");
        }
        // once the server is back its prompt is used
        const p = pm.get("n", opts); await h.tick(); const f = sv.fetches[sv.fetches.length - 1]; h.assert(sv.fetches.length === base + 3, "fetches again"); f.d.resolve(answer(f)); const st = await h.settle(p); h.assert(st.status === "fulfilled" && stands(h, st.value, answer(f)), "the server's prompt");
      },
    },
    {
      name: "fetch options", bounds: "symbolic timeout (1..100000 ms) and retries (0..5), given or not",
      quick: {},
      run: async (h) => {
        const { PromptManager } = h.require("@langfuse/client"); const sv = server(h); const pm = new PromptManager({ apiClient: sv.api }); const opts = {}; const t = h.int("t", 1, 100000), r = h.int("r", 0, 5), a = h.flag("a"), b = h.flag("b"); if (a) opts.fetchTimeoutMs = t; if (b) opts.maxRetries = r;
        pm.get("n", opts); await h.tick(); const o = sv.fetches[0].opts || {};
        h.assert(a ? h.eq(o.timeoutInSeconds, t / 1000) : o.timeoutInSeconds === undefined, "timeout passed on"); h.assert(b ? h.eq(o.maxRetries, r) : o.maxRetries === undefined, "retries passed on");
      },
    },
    {
      name: "options beside a cached prompt", bounds: "a fresh or expired cached prompt asked for again with retries (0..3), timeout, fallback, type and lifetime options given or not",
      quick: {},
      run: async (h) => {
        const { PromptManager } = h.require("@langfuse/client"); const sv = server(h); const pm = new PromptManager({ apiClient: sv.api }); const p0 = pm.get("n", {}); await h.tick(); const f0 = sv.fetches[0]; f0.d.resolve(answer(f0)); await h.settle(p0); const old = h.flag("old"); h.setNow(h.now() + (old ? 60001 : 59999)); const opts = {}; const w = h.choice("w", 6); if (w === 1) opts.maxRetries = h.int("r", 0, 3); if (w === 2) opts.fetchTimeoutMs = h.int("t", 1, 100000); if (w === 3) opts.fallback = "fb"; if (w === 4) opts.type = "text"; if (w === 5) opts.cacheTtlSeconds = h.int("ttl", 1, 100); if (h.flag("all")) Object.assign(opts, { maxRetries: 0, fallback: "fb", type: "text", label: "production" });
        const st = await h.settle(pm.get("n", opts)); h.assert(st.status === "fulfilled" && stands(h, st.value, answer(f0)), "the cached prompt at once"); h.assert(sv.fetches.length === (old ? 2 : 1), "a request only to refresh an expired one"); if (old) { const f = sv.fetches[1]; const bad = h.flag("bad"); if (bad) f.d.reject(new Error("x")); else f.d.resolve(answer(f)); await h.tick(); const s2 = await h.settle(pm.get("n", { cacheTtlSeconds: 50 })); h.assert(s2.status === "fulfilled" && stands(h, s2.value, answer(bad ? f0 : f)), "then the refreshed one, or the stale one after a failure"); }
      },
    },
    {
      name: "two refreshes", bounds: "two or three expired keys of one or two names refreshed at once; their refreshes succeed or fail in any order, with further requests for every key before, between and after",
      quick: { cases: [{ n: 2, same: 1 }, { n: 2, same: 0 }, { n: 3, same: 1 }] },
      run: async (h) => {
        const { PromptManager } = h.require("@langfuse/client"); const sv = server(h); const pm = new PromptManager({ apiClient: sv.api }); const { n, same } = h.params; const keys = [{}, { version: 1 }, { label: "b" }].slice(0, n).map((sel, i) => ({ name: same ? "a" : "a" + i, sel, data: null, refresh: null }));
        const get = async (k) => { const before = sv.fetches.length; const st = await h.settle(pm.get(k.name, k.sel)); const made = sv.fetches.slice(before); return { st, made }; }; for (const k of keys) { const { made } = await get(k); h.assert(made.length === 1, "first fetch"); k.data = answer(made[0]); made[0].d.resolve(k.data); await h.tick(); } h.setNow(h.now() + 61000);
        for (const k of keys) { const { st, made } = await get(k); h.assert(st.status === "fulfilled" && stands(h, st.value, k.data) && made.length === 1, "stale and one refresh"); k.refresh = made[0]; } const left = keys.slice();
        while (left.length) { for (const k of keys) { const { st, made } = await get(k); h.assert(st.status === "fulfilled" && stands(h, st.value, k.data), "the latest prompt of the key"); if (k.refresh) h.assert(made.length === 0, "one refresh at a time per key"); else if (k.failed) { h.assert(made.length === 1, "another refresh after a failure"); k.failed = false; k.refresh = made[0]; } else h.assert(made.length === 0, "fresh again"); } const k = left.splice(h.choice("next" + left.length, left.length), 1)[0]; const f = k.refresh; k.refresh = null; if (h.flag("ok" + left.length)) { k.data = answer(f); f.d.resolve(k.data); } else { k.failed = true; f.d.reject(new Error("x")); } await h.tick(); }
      },
    },
    {
      name: "slow update or delete", bounds: "an update or delete whose request is answered later (or fails) while gets of the same name, before, during and after, are answered in any order; a get answered before the update was answered, or asked before, is never served afterwards",
      quick: { cases: [{ op: "update" }, { op: "delete" }] },
      run: async (h) => {
        const { PromptManager } = h.require("@langfuse/client"); const sv = server(h); const gate = h.deferred(); sv.api.prompts.delete = () => gate.promise; sv.api.promptVersion.update = () => gate.promise; const pm = new PromptManager({ apiClient: sv.api }); const sel = h.pick("sel", [{}, { version: 1 }]); let op, done = false, n = 0; const fs = [];
        for (let i = 0; i < 5; i++) { const acts = []; if (fs.length < 2) acts.push("get"); if (!op) acts.push("op"); else if (!done) acts.push("answer op"); for (const f of fs) if (f.open) acts.push(f); if (!acts.length) break; const a = acts[h.choice("act" + i, acts.length)];
          if (a === "get") { const before = sv.fetches.length; h.settle(pm.get("n", sel)); await h.tick(); if (sv.fetches.length > before) { const f = sv.fetches[before]; f.asked = done; fs.push(f); } else break; } else if (a === "op") { op = h.params.op === "update" ? pm.update({ name: "n", version: 1, newLabels: ["x"] }) : pm.delete("n"); h.settle(op); await h.tick(); } else if (a === "answer op") { done = true; gate.resolve({ name: "n", version: 1, labels: ["x"] }); const st = await h.settle(op); h.assert(st.status === "fulfilled", "the change is confirmed"); } else { a.open = false; a.d.resolve(answer(a)); await h.tick(); } }
        if (!op) op = h.params.op === "update" ? pm.update({ name: "n", version: 1, newLabels: ["x"] }) : pm.delete("n"); if (!done) { gate.resolve({ name: "n", version: 1, labels: ["x"] }); await h.settle(op); } for (const f of fs) if (f.open) { f.open = false; f.d.resolve(answer(f)); await h.tick(); }
        const before = sv.fetches.length; const st = await h.settle(pm.get("n", sel)); if (sv.fetches.length === before) h.assert(fs.some((f) => f.asked && stands(h, st.value, answer(f))), "only a prompt asked for after the change is served from cache");
      },
    },
    {
      name: "many cached prompts", bounds: "10, 60, 300 and 1200 cached prompts (concrete numbers): each is served from cache within its lifetime; an update drops those of one name only",
      quick: { cases: [10, 60, 300, 1200].map((n) => ({ n })) },
      run: async (h) => {
        const { PromptManager } = h.require("@langfuse/client"); const sv = server(h); const pm = new PromptManager({ apiClient: sv.api }); const N = h.params.n; for (let i = 0; i < N; i++) { const p = pm.get("p" + (i % 50), { version: i }); sv.fetches[i].d.resolve(answer(sv.fetches[i])); await p; } const at = h.pick("at", [0, Math.floor(N / 2), N - 1]); const inval = h.flag("inval"), nm = h.pick("nm", [at % 50, (at + 1) % 50]); if (inval) await pm.update({ name: "p" + nm, version: 0, newLabels: [] }); const drop = inval && nm === at % 50;
        const st = await h.settle(pm.get("p" + (at % 50), { version: at })); h.assert(sv.fetches.length === N + (drop ? 1 : 0), "served from cache unless dropped"); if (!drop) h.assert(st.status === "fulfilled" && stands(h, st.value, answer(sv.fetches[at])), "its own prompt");
      },
    },
  ],
};
