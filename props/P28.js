"use strict";
const { otel, ids, client } = require("./lib.js");
const TYPES = ["span", "generation", "event", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding"];
// the ways in which the SDK starts an observation; each returns the ids of the spans it started and ended
const WAYS = ["start", "active", "observe", "child", "openai", "langchain"];
module.exports = {
  assumptions: ["the isolated provider is a real OpenTelemetry SDK provider; its processors are recorders", "ids are read inside the SDK's own asynchronous context, whose manager is registered"],
  harnesses: [
    {
      name: "routing", bounds: "3 (quick) / 4 steps after a first observation, each switching to one of two isolated providers or back to the global one, or starting an observation (10 types) in one of 6 ways (startObservation, startActiveObservation, observe, child, OpenAI call, LangChain run), inside or outside an active global span",
      quick: { cases: WAYS.map((first) => ({ n: 3, first })), timeS: 150 }, thorough: { cases: WAYS.flatMap((first) => WAYS.map((second) => ({ n: 4, first, second }))), timeS: 600 }, mustReach: ["isolated", "global"],
      run: async (h) => {
        const P = h.params; const o = otel(h, { noProcessor: true }); const T = h.require("@langfuse/tracing"), { observeOpenAI } = h.require("@langfuse/openai"), { CallbackHandler } = h.require("@langfuse/langchain"); const started = []; const gen = ids();
        const provider = (tag) => new o.sdk.BasicTracerProvider({ idGenerator: gen, spanProcessors: [{ onStart: (s) => started.push({ tag, s, ends: 0 }), onEnd: (s) => { const e = started.find((x) => x.s.spanContext().spanId === s.spanContext().spanId && x.tag === tag); if (e) e.ends++; }, forceFlush: () => Promise.resolve(), shutdown: () => Promise.resolve() }] });
        o.api.trace.disable(); const G = provider("G"), A = provider("A"), B = provider("B"); o.api.trace.setGlobalTracerProvider(G); let cur = null; const tagOf = (p) => (p === A ? "A" : p === B ? "B" : "G"); let made = 0; const parents = [];
        const oa = observeOpenAI({ chat: { completions: { create: async () => ({ choices: [{ message: { content: "x" } }], usage: {} }) } } }); let run = 0;
        const make = async (way, i) => {
          const t = TYPES[(i * 3 + WAYS.indexOf(way)) % TYPES.length], want = tagOf(cur); h.reach(want === "G" ? "global" : "isolated"); const before = started.length; let active;
          const outer = (i < P.n - 1 && !P.second ? i === 1 : h.flag("outer" + i)) ? G.getTracer("app").startSpan("outer") : undefined; const base = started.length; const within = (f) => (outer ? o.within(outer, f) : f()); let parent = outer;
          if (way === "start") within(() => T.startObservation("n" + i, { input: 1 }, { asType: t })).end();
          else if (way === "active") await within(() => T.startActiveObservation("n" + i, async () => { active = [T.getActiveTraceId(), T.getActiveSpanId()]; await h.tick(); return T.getActiveSpanId() === active[1]; }, { asType: t })).then((same) => h.assert(same, "the active ids stay after a pause"));
          else if (way === "observe") within(() => T.observe(() => { active = [T.getActiveTraceId(), T.getActiveSpanId()]; }, { name: "n" + i, asType: t })());
          else if (way === "child") { const p = parents.length ? parents[parents.length - 1] : undefined; if (!p) return; within(() => p.startObservation("n" + i, { input: 1 }, { asType: t })).end(); parent = p.otelSpan; }
          else if (way === "openai") await within(() => oa.chat.completions.create({ model: "m", messages: [] }));
          else { const cb = new CallbackHandler(); const id = "r" + run++; await within(async () => { await cb.handleChainStart({ id: ["x"], name: "c" }, { a: 1 }, id); await cb.handleChainEnd({ b: 1 }, id); }); }
          await h.tick(); const mine = started.slice(base); h.assert(mine.length === 1, "one span is started"); if (mine.length !== 1) return; const e = mine[0];
          h.assert(e.tag === want, "with the provider in effect, whatever was in effect before"); h.assert(e.ends === 1, "and ended there once"); const sc = e.s.instrumentationScope || e.s.instrumentationLibrary; h.assert(sc.name === "langfuse-sdk" && sc.version === o.core.LANGFUSE_SDK_VERSION, "with the Langfuse tracer's name and version");
          if (parent) { const ps = parent.spanContext(); h.assert(e.s.parentSpanContext && e.s.parentSpanContext.spanId === ps.spanId && e.s.spanContext().traceId === ps.traceId, "the context is shared between providers"); } else h.assert(!e.s.parentSpanContext, "a root"); if (active) h.assert(active[0] === e.s.spanContext().traceId && active[1] === e.s.spanContext().spanId, "the active ids are those of the running observation"); if (outer) { outer.end(); const oe = started.find((x) => x.s === outer || x.s.spanContext().spanId === outer.spanContext().spanId); h.assert(oe.tag === "G" && oe.ends === 1, "other spans stay with the global provider"); } h.assert(T.getActiveTraceId() === undefined && T.getActiveSpanId() === undefined, "no active ids outside");
        };
        T.setLangfuseTracerProvider(null); if (h.flag("keep")) { parents.push(T.startObservation("parent")); started.length = 0; }
        for (let i = 0; i < P.n; i++) {
          const k = i === 0 ? h.choice("k" + i, 3) : h.choice("k" + i, 4); if (k < 3) { cur = [null, A, B][k]; T.setLangfuseTracerProvider(cur); h.assert(T.getLangfuseTracerProvider() === (cur === null ? o.api.trace.getTracerProvider() : cur), "the provider in effect is reported"); if (i < P.n - 1) continue; }
          const last = i === P.n - 1; await make(last ? P.first : WAYS[h.choice("way" + i, P.second ? WAYS.length : 3)], i);
        }
      },
    },
    {
      name: "experiments", bounds: "an experiment of one or two items (task, one evaluator) while an isolated provider is set, unset or switched between the items", quick: {},
      run: async (h) => {
        const o = otel(h, { noProcessor: true }); const T = h.require("@langfuse/tracing"); const seen = []; const gen = ids(); const provider = (tag) => new o.sdk.BasicTracerProvider({ idGenerator: gen, spanProcessors: [{ onStart: () => {}, onEnd: (s) => seen.push({ tag, s }), forceFlush: () => Promise.resolve(), shutdown: () => Promise.resolve() }] }); o.api.trace.disable(); o.api.trace.setGlobalTracerProvider(provider("G")); const A = provider("A"), B = provider("B");
        const { client: lf } = client(h); const first = h.pick("first", [null, A, B]), second = h.pick("second", [null, A, B]); T.setLangfuseTracerProvider(first); const tag = (p) => (p === A ? "A" : p === B ? "B" : "G"); let n = 0;
        const st = await h.settle(lf.experiment.run({ name: "e", data: [{ input: 1 }, { input: 2 }], maxConcurrency: 1, task: async () => { if (n++ === 0) T.setLangfuseTracerProvider(second); return "o"; } }), { timers: true }); h.assert(st.status === "fulfilled", "the run finishes"); const by = (i) => seen.filter((x) => x.s.name === "experiment-item-run" && x.s.spanContext().traceId === st.value.itemResults[i].traceId); h.assert(by(0).length === 1 && by(0)[0].tag === tag(first) && by(1).length === 1 && by(1)[0].tag === tag(second), "each item with the provider in effect when it started");
      },
    },
    {
      name: "active ids", bounds: "two asynchronous scopes (active observation, wrapped function, explicit context of a span with symbolic hex ids) whose steps interleave in every order, each reading the ids before and after pauses; nested scopes",
      quick: {}, mustReach: ["interleaved"],
      run: async (h) => {
        const o = otel(h); const T = h.require("@langfuse/tracing"); const hex = (n, l) => h.string(n, { min: l, max: l, ranges: [[48, 57], [97, 102]] }); const read = () => [T.getActiveTraceId(), T.getActiveSpanId()]; h.assert(h.eq(read(), [undefined, undefined]), "nothing active");
        const gates = [[], []]; const log = [[], []]; const pause = (k) => { const d = h.deferred(); gates[k].push(d); return d.promise; };
        const scope = (k, kind) => {
          const body = async (want) => { log[k].push([read(), want()]); await pause(k); log[k].push([read(), want()]); const inner = T.startObservation("i"); log[k].push([read(), want()]); inner.end(); await pause(k); log[k].push([read(), want()]); };
          if (kind === 0) return T.startActiveObservation("a" + k, (ob) => body(() => [ob.traceId, ob.id])); if (kind === 1) return T.observe(() => { const s = o.api.trace.getActiveSpan().spanContext(); return body(() => [s.traceId, s.spanId]); }, { name: "w" + k })();
          const tid = "a".repeat(31) + hex("t" + k, 1), sid = "b".repeat(15) + hex("s" + k, 1); return o.api.context.with(o.api.trace.setSpanContext(o.api.context.active(), { traceId: tid, spanId: sid, traceFlags: 1 }), () => body(() => [tid, sid]));
        };
        const nested = h.flag("nested"); let ps; const k0 = h.choice("kind0", 3), k1 = h.choice("kind1", 3); if (nested) { ps = [T.startActiveObservation("out", async (ob) => { const p = scope(0, k0); h.assert(h.eq(read(), [ob.traceId, ob.id]), "the inner scope leaves the outer one active"); const q = scope(1, k1); await Promise.all([p, q]); h.assert(h.eq(read(), [ob.traceId, ob.id]), "still the outer one"); })]; } else ps = [scope(0, k0), scope(1, k1)];
        await h.tick(); h.assert(h.eq(read(), [undefined, undefined]), "nothing active outside"); for (let i = 0; i < 4; i++) { const open = [0, 1].filter((k) => gates[k].length); if (!open.length) break; const k = open[h.choice("who" + i, open.length)]; if (i && open.length === 2) h.reach("interleaved"); gates[k].shift().resolve(); await h.tick(); h.assert(h.eq(read(), [undefined, undefined]), "nothing active outside"); }
        const st = await h.settle(Promise.all(ps)); h.assert(st.status === "fulfilled", "finished"); for (const k of [0, 1]) { h.assert(log[k].length === 4, "ran"); for (const [got, want] of log[k]) h.assert(h.eq(got, want), "the ids of the active span of this scope"); }
      },
    },
    {
      name: "times", bounds: "start and end times given as Date, milliseconds (symbolic) or not at all, for every observation type (children take no start time)", quick: {},
      run: async (h) => {
        const o = otel(h); const T = h.require("@langfuse/tracing"); const t = TYPES[h.choice("t", TYPES.length)]; const t0 = 1600000000000 + h.concrete(h.pick("ms", [0, 1, 250, 59999])), now = h.concrete(h.now()); const given = h.flag("s"), giveE = h.flag("e") && t !== "event", kind = h.choice("kind", 3); const opts = { asType: t }; const giveS = given && kind !== 1; if (giveS) opts.startTime = new Date(t0); const end = new Date(t0 + 1500); let ob;
        if (kind === 0) ob = T.startObservation("n", {}, opts); else if (kind === 1) { const p = T.startObservation("p"); ob = p.startObservation("n", {}, opts); } else T.startActiveObservation("n", (x) => { ob = x; }, Object.assign({ endOnExit: false }, opts));
        if (t !== "event") { if (giveE) ob.end(end); else ob.end(); } await h.tick(); const s = o.exported.find((x) => x.name === "n"); h.assert(!!s, "exported"); if (!s) return; const ms = (x) => x[0] * 1000 + x[1] / 1e6; if (giveS) h.assert(ms(s.startTime) === t0, "the given start time"); if (giveE && giveS) h.assert(ms(s.endTime) === t0 + 1500, "the given end time"); if (giveS && t === "event") h.assert(ms(s.endTime) === t0, "an event is a point in time"); h.assert(ms(s.endTime) >= ms(s.startTime), "no negative duration");
      },
    },
  ],
};
