"use strict";
const { otel } = require("./lib.js");
function server(h) { const batches = []; return { batches, api: { ingestion: { batch: (req) => { const d = h.deferred(); batches.push({ events: req.batch.slice(), d, open: true }); return d.promise; } } } }; }
const answer = (b, how) => { b.open = false; if (how === 0) b.d.resolve({ successes: b.events.map((e) => ({ id: e.id, status: 201 })), errors: [] }); else if (how === 1) b.d.reject(b.events.length % 2 ? Object.assign(new Error("down"), { statusCode: 503 }) : Object.assign(new Error("slow"), { statusCode: 429 })); else if (how === 3) b.d.reject(b.events.length % 2 ? undefined : "text"); else b.d.resolve({ successes: [], errors: [{ id: "x", status: 400, message: "no" }] }); };
const sent = (sv) => { const l = []; for (const b of sv.batches) for (const e of b.events) l.push(e.body.id); return l; };
module.exports = {
  assumptions: ["the process stays alive until timers and requests have run", "the ingestion request itself is asynchronous (does not throw synchronously)"],
  harnesses: [
    {
      name: "histories", bounds: "every history of 5-6 (quick) / 7-8 (thorough) steps of create, flush, shutdown, time passing (a symbolic 0..3000 ms), and answers (success, failure, partial error) to outstanding requests in any order; flush count 0..3, 2.5 or default, interval 1 s or 2 s",
      quick: { cases: [{ at: "2", steps: 6 }, { at: "3", steps: 6 }, { at: "1", steps: 5 }, { steps: 6, iv: "2" }, { at: "0", steps: 4 }, { at: "2.5", steps: 5 }], timeS: 80 }, thorough: { cases: [{ at: "2", steps: 8 }, { at: "3", steps: 8 }, { at: "1", steps: 7 }, { steps: 8, iv: "2" }], timeS: 840 },
      mustReach: ["count", "interval", "overlap", "flushed"],
      run: async (h) => {
        const P = h.params; if (P.at) h.env.LANGFUSE_FLUSH_AT = P.at; if (P.iv) h.env.LANGFUSE_FLUSH_INTERVAL = P.iv; const at = P.at ? Number(P.at) : 10, iv = (P.iv ? Number(P.iv) : 1) * 1000;
        const { ScoreManager } = h.require("@langfuse/client"); const sv = server(h); const m = new ScoreManager({ apiClient: sv.api });
        h.clock(() => 1700000000000); // event timestamps and ids do not matter here
        const created = []; const flushes = []; let dueAt; // when the interval of the oldest waiting score ends
        const open = () => sv.batches.filter((b) => b.open);
        const check = () => {
          const ids = sent(sv); h.assert(ids.length <= created.length && h.eq(ids, created.slice(0, ids.length)), "sent exactly once, in creation order");
          for (const b of sv.batches) h.assert(b.events.length >= 1 && b.events.length <= 100, "batch size");
          // a flush is over exactly when everything created before it has been answered
          for (const f of flushes) { let need = f.upTo, done = true; for (const b of sv.batches) { if (need <= 0) break; need -= b.events.length; if (b.open) done = false; } done = done && need <= 0; h.assert(f.st.status !== "rejected", "a flush never rejects"); h.assert(f.st.status !== "fulfilled" || done, "a flush resolves only when everything before it was sent and answered"); h.assert(!done || f.st.status === "fulfilled", "a flush resolves once everything before it is answered"); }
          if (ids.length === created.length) dueAt = undefined;
        };
        for (let i = 0; i < P.steps; i++) {
          const ops = ["create", "flush", "time"]; if (open().length) ops.push("answer"); const op = i === 0 ? "create" : ops[h.choice("op" + i, ops.length)];
          if (op === "create") { const id = "s" + i; const before = sent(sv).length; const waiting = created.length - before; created.push(id); m.create({ id, name: "n", value: i, traceId: "t" }); await h.tick(); if (waiting + 1 >= at) { h.reach("count"); h.assert(sent(sv).length === created.length, "sent when the count is reached"); } else { h.assert(sent(sv).length === before, "below the count nothing is sent at once"); if (dueAt === undefined) dueAt = h.now() + iv; } }
          else if (op === "flush") { if (open().length) h.reach("overlap"); h.reach("flushed"); const f = { upTo: created.length, st: { status: "pending" } }; const p = i % 2 ? m.flush() : m.shutdown(); p.then(() => { f.st = { status: "fulfilled" }; }, () => { f.st = { status: "rejected" }; }); flushes.push(f); await h.tick(); h.assert(sent(sv).length === created.length, "a flush sends what is queued"); }
          else if (op === "time") { await h.advance(h.int("dt" + i, 0, 3000)); if (dueAt !== undefined) { h.assume(h.not(h.eq(h.now(), dueAt))); if (h.now() > dueAt) { h.reach("interval"); h.assert(sent(sv).length === created.length, "sent when the interval has passed"); } } }
          else answer(open()[h.choice("which" + i, open().length)], h.choice("how" + i, 3));
          await h.tick(); check();
        }
        for (const b of open()) answer(b, 0); await h.tick(); check();
        await h.advance(iv + 1); h.assert(sent(sv).length === created.length, "nothing stays behind"); for (const b of open()) answer(b, 0); await h.tick(); check();
      },
    },
    {
      name: "large queues", bounds: "99..101, 200 and 250 scores queued before a flush; the middle request fails",
      quick: { cases: [99, 100, 101, 200, 250].map((n) => ({ n })) }, meta: { maxSteps: 5e7 },
      run: async (h) => {
        h.env.LANGFUSE_FLUSH_AT = "100000"; const { ScoreManager } = h.require("@langfuse/client"); const sv = server(h); const m = new ScoreManager({ apiClient: sv.api }); const n = h.params.n; const bad = h.choice("bad", 4); const ids = [];
        for (let i = 0; i < n; i++) { ids.push("s" + i); m.create({ id: "s" + i, name: "n", value: i }); }
        const p = m.flush(); await h.tick(); let i = 0; for (let k = 0; k < 10; k++) { for (const b of sv.batches.slice(i)) { answer(b, i === bad ? 1 : 0); i++; } await h.tick(); }
        const st = await h.settle(p); h.assert(st.status === "fulfilled", "flush resolves"); h.assert(h.eq(sent(sv), ids), "all sent once in order"); h.assert(sv.batches.every((b) => b.events.length <= 100 && b.events.length > 0), "at most 100 per request");
      },
    },
    {
      name: "flush of many requests", bounds: "700 and 1250 scores queued before a flush; the requests are answered in order except a symbolic one (first, middle, last), which comes last and succeeds or fails; and the scores created meanwhile",
      quick: { cases: [700, 1250].map((n) => ({ n })) }, meta: { maxSteps: 5e7 },
      run: async (h) => {
        h.env.LANGFUSE_FLUSH_AT = "100000"; const { ScoreManager } = h.require("@langfuse/client"); const sv = server(h); const m = new ScoreManager({ apiClient: sv.api }); const n = h.params.n; const ids = []; for (let i = 0; i < n; i++) { ids.push("s" + i); m.create({ id: "s" + i, name: "n", value: i }); } let st = "pending"; m[h.pick("op", ["flush", "shutdown"])]().then(() => { st = "ok"; }, () => { st = "rejected"; }); await h.tick(); if (h.flag("later")) { m.create({ id: "late", name: "n", value: 0 }); ids.push("late"); }
        const late = h.pick("late", [0, Math.floor(n / 200), Math.ceil(n / 100) - 1]); for (let k = 0; k < 3; k++) { sv.batches.forEach((b, i) => { if (i !== late && b.open) answer(b, 0); }); await h.tick(); } h.assert(st === "pending", "the flush waits for every request"); answer(sv.batches[late], h.pick("how", [0, 1, 3])); await h.tick(); for (const b of sv.batches) if (b.open) answer(b, 0); await h.tick(); h.assert(st === "ok", "and resolves after the last"); await h.advance(1001); h.assert(h.eq(sent(sv), ids), "all sent once in order");
      },
    },
    {
      name: "queue limit", bounds: "100001 scores queued while nothing is sent: the first 100000 are kept",
      quick: { timeS: 200 }, meta: { maxSteps: 5e8 },
      run: async (h) => {
        h.env.LANGFUSE_FLUSH_AT = "1000000"; const { ScoreManager } = h.require("@langfuse/client"); const sv = server(h); const m = new ScoreManager({ apiClient: sv.api }); const n = 100000; const extra = h.choice("extra", 2); const sc = { id: "a", name: "n", value: 1 };
        for (let i = 0; i < n; i++) { sc.id = i; m.create(sc); } h.assert(sv.batches.length === 0, "nothing sent yet"); if (extra) { sc.id = "late"; m.create(sc); }
        const p = m.flush(); await h.tick(); for (const b of sv.batches) answer(b, 0); await h.settle(p); let k = 0, ok = true; for (const b of sv.batches) for (const e of b.events) { if (e.body.id === "late") continue; if (e.body.id !== k++) ok = false; } h.assert(ok && k === n, "the first 100000 are all sent");
      },
    },
    {
      name: "score content", bounds: "name, comment and string value of up to 2 symbolic units, numeric value over the reals, id and environment given or not, all other fields present or not; sent by create, observation, trace, activeObservation and activeTrace",
      quick: {}, mustReach: ["sent"],
      run: async (h) => {
        const o = otel(h); const { ScoreManager } = h.require("@langfuse/client"); const sv = server(h); const envDef = h.flag("envDefault"); if (envDef) h.env.LANGFUSE_TRACING_ENVIRONMENT = "dflt"; h.env.LANGFUSE_FLUSH_AT = "1"; const m = new ScoreManager({ apiClient: sv.api });
        const d = { name: h.string("name", { max: 2 }), value: h.flag("num") ? h.real("num", -1000, 1000) : h.string("val", { max: 2 }) };
        const hasId = h.flag("id"); if (hasId) d.id = h.string("theid", { max: 2 }); const hasEnv = h.flag("env"); if (hasEnv) d.environment = h.string("theenv", { min: 1, max: 2 }); if (h.flag("rest")) { d.comment = h.string("comment", { max: 2 }); d.metadata = { k: [1, null, { z: d.comment }] }; d.dataType = "NUMERIC"; d.configId = "c"; d.queueId = "q"; }
        const how = h.pick("how", ["create", "observation", "trace", "activeObservation", "activeTrace", "inactive"]); const frozen = h.freeze(Object.assign({}, d)); const span = o.start("s"); const { traceId, spanId } = span.spanContext();
        const target = {}; if (how === "create") { target.traceId = "tr"; target.observationId = "ob"; target.sessionId = "se"; target.datasetRunId = "dr"; m.create(Object.assign({}, frozen, target)); } else if (how === "observation") { m.observation({ otelSpan: span }, frozen); target.traceId = traceId; target.observationId = spanId; } else if (how === "trace") { m.trace({ otelSpan: span }, frozen); target.traceId = traceId; } else if (how === "activeObservation") { o.within(span, () => m.activeObservation(frozen)); target.traceId = traceId; target.observationId = spanId; } else if (how === "activeTrace") { o.within(span, () => m.activeTrace(frozen)); target.traceId = traceId; } else { m.activeObservation(frozen); m.activeTrace(frozen); }
        await h.tick(); if (how === "inactive") { h.assert(sv.batches.length === 0, "nothing to score without an active span"); return; }
        h.reach("sent"); h.assert(sv.batches.length === 1 && sv.batches[0].events.length === 1, "one event"); const e = sv.batches[0].events[0]; const want = Object.assign({}, d, target);
        if (!hasEnv && envDef) want.environment = "dflt"; const body = Object.assign({}, e.body); if (!hasId) { h.assert(/^[0-9a-f-]{36}$/.test(body.id), "an id is generated"); delete body.id; }
        h.assert(h.eq(body, want), "exactly the caller's fields and the target"); h.assert(e.type === "score-create" && /^[0-9a-f-]{36}$/.test(e.id), "event"); h.assert(e.timestamp === new Date(h.now()).toISOString(), "timestamp");
      },
    },
  ],
};
