"use strict";
const IN = "langfuse.observation.input";
module.exports = {
  assumptions: ["every mask and upload request eventually settles", "the exporter answers every export call"],
  harnesses: [
    {
      name: "schedules", bounds: "two spans; each ended, its asynchronous mask answered (or failing) and its upload answered (or failing) in every order, with one flush or shutdown called at every possible point; second span with media in the thorough tier; immediate and batched export",
      quick: { cases: ["immediate", "batched"].flatMap((mode) => ["forceFlush", "shutdown"].map((op) => ({ mode, op, m2: 0 }))) }, thorough: { cases: ["immediate", "batched"].flatMap((mode) => ["forceFlush", "shutdown"].map((op) => ({ mode, op, m2: 1 }))), timeS: 2400 },
      mustReach: ["flush while pending"],
      run: async (h) => {
        const L = h.require("./lib.js"); const { mode, op } = h.params; const log = [];
        const ups = []; // upload gates by span
        const masks = {}; const exporter = { export: (spans, cb) => { for (const s of spans) log.push("export " + s.name); cb({ code: 0 }); }, shutdown: () => { log.push("down"); return Promise.resolve(); }, forceFlush: () => { log.push("flush"); return Promise.resolve(); } };
        h.api(() => ({ media: { getUploadUrl: () => { const d = h.deferred(); ups.push(d); return d.promise; }, patch: () => Promise.resolve() } }));
        const o = L.otel(h, { exporter, params: { exportMode: mode, mediaUploadEnabled: true, mask: ({ data }) => { const d = h.deferred(); masks[data] = d; return d.promise; } } });
        const media = ["data:image/png;base64,AAAA", h.params.m2 ? "data:image/png;base64,BBBB" : "plain"];
        const sp = [0, 1].map((i) => ({ i, span: o.tracer.startSpan("s" + i, { attributes: { [IN]: "v" + i } }), stage: 0 }));
        const maskFails = h.flag("maskFails"), upFails = h.flag("uploadFails");
        let flush, st = { status: "none" }, must = [];
        const enabled = () => { const e = []; for (const s of sp) { if (s.stage === 0) e.push(["end", s]); else if (s.stage === 1) e.push(["mask", s]); else if (s.stage === 2 && s.up) e.push(["up", s]); } if (!flush) e.push(["flush"]); return e; };
        for (let k = 0; k < 12; k++) {
          const e = enabled(); if (!e.length) break; const [what, s] = e[h.choice("step" + k, e.length)];
          if (what === "end") { s.span.end(); s.stage = 1; s.ended = true; }
          else if (what === "mask") { const d = masks["v" + s.i]; const fail = s.i === 0 && maskFails; const before = ups.length; if (fail) d.reject(new Error("mask")); else d.resolve(media[s.i]); await h.tick(); s.stage = 2; if (ups.length > before) s.up = ups[before]; }
          else if (what === "up") { s.stage = 3; if (s.i === 0 && upFails) s.up.reject(new Error("net")); else s.up.resolve({ uploadUrl: null, mediaId: "m" }); s.upDone = true; }
          else { must = sp.filter((x) => x.ended); if (must.some((x) => x.stage === 1)) h.reach("flush while pending"); flush = o.processor[op](); flush.then(() => { st = { status: "fulfilled" }; }, (err) => { st = { status: "rejected", err }; }); }
          await h.tick();
          const waiting = flush && must.some((x) => x.stage === 1 || (x.up && !x.upDone));
          const busy = sp.some((x) => x.stage === 1 || (x.up && !x.upDone)); // it may also wait for what was ended after the call
          if (flush && waiting) h.assert(st.status === "none", "flush does not resolve before its spans and uploads are done");
          if (flush && !busy) h.assert(st.status === "fulfilled", "flush resolves once nothing is pending");
          if (flush && st.status === "fulfilled" && !o.checked) { o.checked = true; const mark = log.indexOf(op === "shutdown" ? "down" : "flush"); for (const x of must) { const at = log.indexOf("export s" + x.i); h.assert(at >= 0, "span " + x.i + " exported before flush resolved"); if (op === "shutdown") h.assert(at < mark, "span " + x.i + " exported before the exporter was shut down"); } }
        }
        h.assert(st.status === "fulfilled", "flush never hangs or rejects");
        if (op === "forceFlush") { const r = await h.settle(o.processor.forceFlush()); h.assert(r.status === "fulfilled", "a second flush resolves"); for (const x of sp) h.assert(log.filter((l) => l === "export s" + x.i).length === 1, "span " + x.i + " exported exactly once"); }
      },
    },
    {
      name: "several uploads", bounds: "one span with three media (two in its input, one in its output), whose three uploads are answered in every order, each succeeding or failing, with a flush or shutdown called before the first or after any of them",
      quick: { cases: ["forceFlush", "shutdown"].map((op) => ({ op })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const ups = [], log = []; h.api(() => ({ media: { getUploadUrl: () => { const d = h.deferred(); ups.push(d); return d.promise; }, patch: () => Promise.resolve() } }));
        const exporter = { export: (spans, cb) => { for (const s of spans) log.push(s.name); cb({ code: 0 }); }, shutdown: () => Promise.resolve(), forceFlush: () => Promise.resolve() }; const o = L.otel(h, { exporter, params: { mediaUploadEnabled: true } });
        const s = o.tracer.startSpan("s", { attributes: { [IN]: "data:image/png;base64,AAAA data:image/png;base64,BBBB", "langfuse.observation.output": "data:image/png;base64,CCCC" } }); s.end(); await h.tick(); h.assert(ups.length === 3, "three uploads under way");
        const at = h.choice("at", 4); let st = "none", left = [0, 1, 2], done = 0; const call = () => { o.processor[h.params.op]().then(() => { st = "fulfilled"; }, () => { st = "rejected"; }); };
        for (let k = 0; k <= 3; k++) { if (k === at) { call(); await h.tick(); } if (done < 3 && k >= at) h.assert(st === "none", "flush waits for every upload"); if (k === 3) break; const i = left.splice(h.choice("next" + k, left.length), 1)[0]; if (h.flag("fail" + i)) ups[i].reject(new Error("net")); else ups[i].resolve({ uploadUrl: null, mediaId: "m" }); done++; await h.tick(); }
        h.assert(st === "fulfilled" && log.length === 1, "flush resolves once all have settled");
      },
    },
    {
      name: "faults in uploads", bounds: "one span with media per field (input, output, metadata key) whose upload URL request rejects, whose PUT rejects or answers any of five statuses on every attempt, or whose status report rejects; hashing may fail; next to a span without media",
      quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const w = h.choice("fault", 5); const what = w < 2 ? h.pick("what", [new Error("url"), "url", undefined]) : 0; const key = h.pick("key", [IN, "langfuse.observation.output", "langfuse.trace.metadata.k"]);
        const core = h.require("@langfuse/core"); const uri = "data:image/png;base64,AAAA"; const id = await new core.LangfuseMedia({ source: "base64_data_uri", base64DataUri: uri }).getId();
        const status = h.pick("status", [200, 201, 400, 429, 503]);
        h.api(() => ({ media: { getUploadUrl: () => (w === 0 ? Promise.reject(what) : Promise.resolve({ uploadUrl: "https://s.example/x", mediaId: w === 3 ? "other" : id })), patch: () => (w === 2 ? Promise.reject(new Error("patch")) : Promise.resolve()) } }));
        h.onFetch(() => (w === 1 ? Promise.reject(what) : Promise.resolve({ status, ok: status < 300, text: () => Promise.resolve("") })));
        if (w === 4) h.failHash(true);
        const o = L.otel(h, { params: { mediaUploadEnabled: true } });
        const a = o.tracer.startSpan("a", { attributes: { [key]: "x " + uri } }), b = o.start("b"); a.end(); b.end();
        const r = await h.settle(o.processor.forceFlush(), { timers: true }); h.assert(r.status === "fulfilled", "flush resolves despite the fault");
        h.assert(o.exported.filter((s) => s.name === "a").length === 1 && o.exported.filter((s) => s.name === "b").length === 1, "both spans exported");
      },
    },
    {
      name: "two flushes", bounds: "two spans with asynchronous masks and one media upload each; two flushes (or a flush and a shutdown) called at every pair of points of every schedule of ending the second span, answering masks and answering uploads; each call must wait for the spans ended before it",
      quick: { cases: ["forceFlush", "shutdown"].map((op) => ({ op })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const log = [], ups = [], masks = {}; const exporter = { export: (spans, cb) => { for (const s of spans) log.push("export " + s.name); cb({ code: 0 }); }, shutdown: () => { log.push("down"); return Promise.resolve(); }, forceFlush: () => Promise.resolve() };
        h.api(() => ({ media: { getUploadUrl: () => { const d = h.deferred(); ups.push(d); return d.promise; }, patch: () => Promise.resolve() } }));
        const o = L.otel(h, { exporter, params: { mediaUploadEnabled: true, mask: ({ data }) => { const d = h.deferred(); masks[data] = d; return d.promise; } } }); const sp = [0, 1].map((i) => ({ i, span: o.tracer.startSpan("s" + i, { attributes: { [IN]: "v" + i } }), stage: 0 })); sp[0].span.end(); sp[0].stage = 1; await h.tick(); const flushes = [];
        for (let k = 0; k < 9; k++) {
          const e = []; for (const s of sp) { if (s.stage === 0) e.push(["end", s]); else if (s.stage === 1) e.push(["mask", s]); else if (s.stage === 2) e.push(["up", s]); } if (flushes.length < 2) e.push(["flush"]); if (!e.length) break; const [what, s] = e[h.choice("step" + k, e.length)];
          if (what === "end") { s.span.end(); s.stage = 1; } else if (what === "mask") { const b = ups.length; masks["v" + s.i].resolve("data:image/png;base64," + "AB"[s.i].repeat(4)); await h.tick(); s.up = ups[b]; h.assert(s.up !== undefined, "upload under way"); s.stage = 2; } else if (what === "up") { s.stage = 3; s.up.resolve({ uploadUrl: null, mediaId: "m" }); }
          else { const f = { must: sp.filter((x) => x.stage > 0), st: "none" }; flushes.push(f); o.processor[flushes.length === 2 ? h.params.op : "forceFlush"]().then(() => { f.st = "ok"; }, () => { f.st = "rejected"; }); }
          await h.tick(); for (const f of flushes) { if (f.must.some((x) => x.stage < 3)) h.assert(f.st === "none", "each flush waits for its spans and uploads"); else if (f.st === "ok") for (const x of f.must) h.assert(log.includes("export s" + x.i), "exported before the flush resolved"); if (sp.every((x) => x.stage === 0 || x.stage === 3)) h.assert(f.st === "ok", "flush resolves"); }
        }
        h.assert(flushes.length === 2 && flushes.every((f) => f.st === "ok"), "both resolved"); for (const x of sp) if (flushes.some((f) => f.must.includes(x)) || h.params.op === "forceFlush") h.assert(log.filter((l) => l === "export s" + x.i).length <= 1, "at most once");
      },
    },
    {
      name: "slow work", bounds: "a mask or an upload that takes 1 s, 12 s, 60 s or an hour (virtual time) before it answers or fails, while a flush or shutdown waits",
      quick: { cases: ["forceFlush", "shutdown"].map((op) => ({ op })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const log = []; const up = h.deferred(), gate = h.deferred(); const slowMask = h.flag("slowMask"); h.api(() => ({ media: { getUploadUrl: () => up.promise, patch: () => Promise.resolve() } })); const exporter = { export: (spans, cb) => { for (const s of spans) log.push(s.name); cb({ code: 0 }); }, shutdown: () => { log.push("down"); return Promise.resolve(); }, forceFlush: () => { log.push("flush"); return Promise.resolve(); } };
        const o = L.otel(h, { exporter, params: { mediaUploadEnabled: true, mask: ({ data }) => (slowMask ? gate.promise : data) } }); const s = o.tracer.startSpan("s", { attributes: { [IN]: "data:image/png;base64,AAAA" } }); s.end(); let st = "none"; await h.tick(); o.processor[h.params.op]().then(() => { st = "ok"; }, () => { st = "rejected"; }); await h.tick();
        const ms = h.pick("ms", [1000, 12000, 60000, 3600000]); await h.advance(ms); h.assert(st === "none", "still waiting after " + ms); const bad = h.flag("bad");
        if (slowMask) { h.assert(!log.includes("s"), "not exported unmasked"); if (bad) gate.reject(new Error("x")); else gate.resolve("plain"); } else if (bad) up.reject(new Error("x")); else up.resolve({ uploadUrl: null, mediaId: "m" }); await h.tick(); h.assert(st === "ok" && log[0] === "s" && log.filter((x) => x === "s").length === 1, "resolved once done, span exported first");
      },
    },
    {
      name: "many pending spans", bounds: "1, 600 or 1100 spans ended while their masks are pending (concrete numbers); the mask of a symbolic one (first, middle, last) is answered after all others, with a value or failing with an Error or undefined; flush or shutdown called before",
      quick: { cases: ["forceFlush", "shutdown"].flatMap((op) => [1, 600, 1100].map((n) => ({ op, n }))) },
      run: async (h) => {
        const L = h.require("./lib.js"); const log = []; const { op, n } = h.params; const gate = h.deferred(), last = h.deferred(); const at = h.pick("at", [0, Math.floor(n / 2), n - 1]), w = h.choice("w", 3); const exporter = { export: (spans, cb) => { for (const s of spans) log.push(s.name); cb({ code: 0 }); }, shutdown: () => { log.push("down"); return Promise.resolve(); }, forceFlush: () => Promise.resolve() };
        const o = L.otel(h, { exporter, params: { mask: ({ data }) => (data === "v" + at ? last.promise : gate.promise) } }); for (let i = 0; i < n; i++) o.tracer.startSpan("s" + i, { attributes: { [IN]: "v" + i } }).end(); let st = "none"; o.processor[op]().then(() => { st = "ok"; }, () => { st = "rejected"; }); await h.tick(); h.assert(st === "none" && log.length === 0, "waiting"); gate.resolve("m"); await h.tick(); h.assert(st === "none" && log.length === n - 1, "still waiting for the last"); if (w) last.reject([new Error("x"), undefined][w - 1]); else last.resolve("m"); await h.tick(); h.assert(st === "ok", "resolved"); const names = log.filter((x) => x !== "down"); h.assert(names.length === n && new Set(names).size === n, "every span exported once"); if (op === "shutdown") h.assert(log.indexOf("down") === n, "before the shutdown");
      },
    },
  ],
};
