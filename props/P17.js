"use strict";
const TYPES = ["span", "generation", "event", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding"];
const MODES = ["return", "throw", "resolve", "reject"];
// quick: one group of dimensions varies at a time (input, output, placement); thorough: all together
const focus = (h, g) => h.params.all || h.focus === g;
const begin = (h) => { h.focus = h.params.all ? "" : ["input", "output", "place"][h.choice("focus", 3)]; };
// error texts: arbitrary for spans, letters for the other types
const msg = (h) => (h.params.t === "span" ? { max: 2, bmp: true } : { max: 2, ranges: [[97, 122]] });
// something a function can return or throw
function outcome(h, mode) {
  const err = mode === "throw" || mode === "reject"; const k = focus(h, "output") ? h.choice("outcome", 4) : 3;
  if (!err) { if (k === 0) return { v: h.int("n", -2, 2) }; if (k === 1) return { v: h.string("s", { max: 2, bmp: true }) }; return { v: k === 2 ? undefined : { a: [1, null] } }; }
  if (k === 0) { const m = h.string("m", msg(h)); return { v: new Error(m), message: m }; } if (k === 1) { const s = h.string("s", msg(h)); return { v: s, message: s }; } return { v: k === 2 ? undefined : Object.create(null) };
}
// the callback: records what it sees and behaves as the mode says
function body(h, o, mode, out, seen) {
  return function fnName(...args) {
    seen.push({ self: this, args, span: o.api.trace.getActiveSpan() });
    if (mode === "return") return out.v; if (mode === "throw") throw out.v;
    const d = h.deferred(); seen[seen.length - 1].go = () => (mode === "resolve" ? d.resolve(out.v) : d.reject(out.v)); return d.promise;
  };
}
// waits for the call to settle, checking that its span is still open until the function has finished
async function finish(h, call, seen, open) {
  const r = h.attempt(call); if (r.status === "rejected") return r;
  if (!(r.value instanceof Promise)) return r;
  await h.tick(); h.assert(seen.length === 1, "called once"); h.assert(open(), "the span stays open while the function runs"); seen[0].go(); const st = await h.settle(r.value); return Object.assign({ promise: true }, st);
}
const same = (h, a, b) => (a !== null && typeof a === "object" && !h.sym ? a === b : h.eq(a, b));
function check(h, mode, out, r) {
  const asyn = mode === "resolve" || mode === "reject"; h.assert(!!r.promise === asyn, "a promise exactly if the original returns one");
  h.assert(r.status === (mode === "return" || mode === "resolve" ? "fulfilled" : "rejected"), "same way of finishing"); const got = r.status === "fulfilled" ? r.value : r.reason; h.assert(got === out.v, "same value or error");
}
const place = (h, o) => {
  // where the call happens: no active span, inside an active span, or with an explicit parent
  const k = focus(h, "place") ? h.choice("place", 3) : 1; const outer = k === 0 ? undefined : o.start("outer"); const explicit = k === 2 ? { traceId: "0".repeat(30) + "ab", spanId: "0".repeat(14) + "cd", traceFlags: 1 } : undefined;
  return { outer, explicit, parent: explicit || (outer && outer.spanContext()), run: (f) => (outer ? o.within(outer, f) : f()) };
};
function placed(h, p, span) { const psc = span.parentSpanContext; if (!p.parent) h.assert(!psc, "a root outside any span"); else { h.assert(!!psc && psc.spanId === p.parent.spanId && span.spanContext().traceId === p.parent.traceId, "child of the active span or the given parent"); } }
module.exports = {
  assumptions: ["asynchronous functions return native promises", "spans are recording; an event observation has no duration: it is over when it starts"],
  harnesses: [
    {
      name: "observe", bounds: "10 observation types; returning, throwing, resolving or rejecting later; 0..2 arguments of which the first is a symbolic integer or a symbolic string of up to 2 units; result or error symbolic (number, string, Error with symbolic message, undefined, object, value without string form); capture, automatic ending, explicit and implicit parents ; quick varies one group (input, output, placement) at a time, thorough all combinations",
      quick: { cases: TYPES.map((t) => ({ t })) }, thorough: { cases: TYPES.flatMap((t) => MODES.map((m) => ({ t, m, all: 1 }))), timeS: 120, maxPaths: 20000 }, 
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observe } = h.require("@langfuse/tracing"); const { t } = h.params, m = h.params.m || h.pick("mode", MODES); begin(h); const out = outcome(h, m), seen = []; 
        const fn = body(h, o, m, out, seen); const p = place(h, o); const capIn = focus(h, "input") ? h.flag("capIn") : true, capOut = focus(h, "output") ? h.flag("capOut") : true, end = focus(h, "place") ? h.flag("end") : true, named = focus(h, "place") ? h.flag("named") : true; const nargs = focus(h, "input") ? h.choice("nargs", 3) : 2; const a0 = nargs === 1 && capIn ? (h.flag("strArg") ? h.string("a0", { max: 2, bmp: true }) : h.int("a0", -1, 1)) : 7; const args = [a0, "x"].slice(0, nargs); const self = { s: 1 };
        const opts = { asType: t }; if (named) opts.name = "given"; if (!capIn) opts.captureInput = false; if (!capOut) opts.captureOutput = false; if (!end) opts.endOnExit = false; if (p.explicit) opts.parentSpanContext = p.explicit;
        const w = observe(fn, opts); h.assert(seen.length === 0 && o.exported.length === 0, "wrapping does nothing");
        const before = o.exported.length; const r = await p.run(() => finish(h, () => w.apply(self, args), seen, () => (t === "event" ? true : o.exported.length === before)));
        await h.tick(); check(h, m, out, r); h.assert(seen.length === 1, "called once"); const c = seen[0]; h.assert(c.self === self && c.args.length === nargs && args.every((a, i) => c.args[i] === a), "same receiver and arguments");
        const span = c.span; h.assert(!!span && span !== p.outer, "its own span is active inside"); placed(h, p, span); h.assert(span.name === (named ? "given" : "fnName"), "name"); h.assert(span.attributes["langfuse.observation.type"] === t, "type");
        h.assert(o.api.trace.getActiveSpan() === undefined, "the active span is restored"); const ended = end || t === "event"; h.assert(span.ended === ended, "ended unless told otherwise"); h.assert(o.exported.filter((s) => s.spanContext().spanId === span.spanContext().spanId).length === (ended ? 1 : 0), "exported once");
        const at = span.attributes, failed = m === "throw" || m === "reject"; const json = (v) => (v === undefined || v === null ? undefined : typeof v === "string" ? v : JSON.stringify(v));
        h.assert(h.eq(at["langfuse.observation.input"], capIn ? (nargs === 0 ? undefined : nargs === 1 ? json(a0) : JSON.stringify(args)) : undefined), "input as called");
        if (t === "event") return; if (!failed) { h.assert(h.eq(at["langfuse.observation.output"], capOut ? json(out.v) : undefined), "output as returned"); h.assert(at["langfuse.observation.level"] === undefined && at["langfuse.observation.status_message"] === undefined, "no error recorded"); } else { h.assert(at["langfuse.observation.level"] === "ERROR", "error level"); const msg = at["langfuse.observation.status_message"]; h.assert(h.concrete(msg.length > 0), "error message recorded"); if (out.message !== undefined) h.assert(h.or(h.eq(out.message.length, 0), h.eq(msg, out.message)), "the error's own message"); if (!capOut) h.assert(at["langfuse.observation.output"] === undefined, "no output captured"); }
      },
    },
    {
      name: "active observation", bounds: "10 observation types; returning, throwing, resolving or rejecting later; symbolic results, errors and start time; automatic ending, explicit and implicit parents ; quick varies one group (input, output, placement) at a time, thorough all combinations",
      quick: { cases: TYPES.map((t) => ({ t })) }, thorough: { cases: TYPES.flatMap((t) => MODES.map((m) => ({ t, m, all: 1 }))), timeS: 120, maxPaths: 20000 },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { startActiveObservation } = h.require("@langfuse/tracing"); const { t } = h.params, m = h.params.m || h.pick("mode", MODES); begin(h); const out = outcome(h, m), seen = []; const fn = body(h, o, m, out, seen); const p = place(h, o); const end = focus(h, "place") ? h.flag("end") : true, timed = focus(h, "input") ? h.flag("timed") : false;
        const opts = { asType: t }; if (!end) opts.endOnExit = false; if (p.explicit) opts.parentSpanContext = p.explicit; if (timed) opts.startTime = new Date(1700000000000);
        const before = o.exported.length; const r = await p.run(() => finish(h, () => startActiveObservation("act", fn, opts), seen, () => (t === "event" ? true : o.exported.length === before)));
        await h.tick(); check(h, m, out, r); h.assert(seen.length === 1, "called once"); const obs = seen[0].args[0], span = seen[0].span; h.assert(!!obs && obs.otelSpan === span && obs.type === t && obs.id === span.spanContext().spanId && obs.traceId === span.spanContext().traceId, "gets the active observation"); placed(h, p, span); h.assert(span.name === "act" && span.attributes["langfuse.observation.type"] === t, "name and type"); if (timed) h.assert(span.startTime[0] === 1700000000 && span.startTime[1] === 0, "start time");
        const ended = end || t === "event"; h.assert(span.ended === ended, "ended unless told otherwise"); h.assert(o.exported.filter((s) => s.spanContext().spanId === span.spanContext().spanId).length === (ended ? 1 : 0), "exported once"); h.assert(o.api.trace.getActiveSpan() === undefined, "the active span is restored");
        if (t === "event") return; const failed = m === "throw" || m === "reject"; if (failed) { h.assert(span.status.code === 2, "error status"); if (out.v instanceof Error) h.assert(h.eq(span.status.message, out.message), "the error's message"); } else h.assert(span.status.code === 0, "no error status");
      },
    },
    {
      name: "concurrent calls", bounds: "two overlapping calls of one wrapped asynchronous function or of active observations, nested or side by side, finishing in either order, each succeeding or failing",
      quick: { cases: [{ w: "observe" }, { w: "active" }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const T = h.require("@langfuse/tracing"); const ds = [h.deferred(), h.deferred()], spans = []; const nested = h.flag("nested"), first = h.choice("first", 2), fails = [h.flag("f0"), h.flag("f1")]; const act = () => o.api.trace.getActiveSpan(); const err = new Error("no"); const late = [];
        let call; const work = async (i) => { spans[i] = act(); let inner; if (nested && i === 0) inner = call(1).catch(() => {}); const v = await ds[i].promise; late[i] = act(); if (inner) await inner; if (fails[i]) throw err; return v; };
        call = h.params.w === "observe" ? T.observe(work, { name: "w" }) : (i) => T.startActiveObservation("w" + i, () => work(i));
        const ps = [call(0)]; const p1 = nested ? undefined : call(1); const fix = (p) => p.then((value) => ({ value }), (reason) => ({ reason })); const all = [fix(ps[0]), p1 && fix(p1)]; const order = nested ? [1, 0] : first === 0 ? [0, 1] : [1, 0];
        h.assert(spans[0] && spans[1] && spans[0] !== spans[1], "a span for each call"); if (nested) h.assert(spans[1].parentSpanContext && spans[1].parentSpanContext.spanId === spans[0].spanContext().spanId, "nested call is a child"); else h.assert(!spans[1].parentSpanContext && !spans[0].parentSpanContext, "side by side calls are not nested");
        for (const i of order) { h.assert(!spans[i].ended, "open until finished"); ds[i].resolve("v" + i); await h.tick(); await h.tick(); h.assert(spans[i].ended, "ended when finished"); h.assert(late[i] === spans[i], "its span is active for the whole call"); }
        const r0 = await all[0]; h.assert(fails[0] ? r0.reason === err : r0.value === "v0", "own result"); if (!nested) { const r1 = await all[1]; h.assert(fails[1] ? r1.reason === err : r1.value === "v1", "own result"); } h.assert(o.exported.length === 2, "two spans");
      },
    },
    {
      name: "unusual functions", bounds: "results that are thenables, functions, generators, subclassed promises or observations; bound, anonymous and arrow functions; 0..4 arguments with undefined or null first, last or all; receiver absent; by observe (with and without options, twice wrapped) and active observation",
      quick: { cases: [{ w: "observe" }, { w: "active" }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const T = h.require("@langfuse/tracing"); let thens = 0, calls = 0, got, self; class Sub extends Promise {} const rk = h.choice("rk", 6); const res = [{ then: () => { thens++; } }, () => 1, (function* () { yield 1; })(), null, "", NaN][rk];
        const a = h.pick("args", [[], [undefined], [null], [1, undefined], [undefined, undefined], [undefined, 2], [1, null], [0, "", false, undefined], [[1]], [{ a: undefined, b: 1 }]]); const active = h.params.w === "active"; function plain(...args) { calls++; got = args; self = this; return res; } const fk = active ? 0 : h.choice("fk", 4); const fn = fk === 1 ? plain.bind({ b: 1 }) : fk === 2 ? (...args) => { calls++; got = args; return res; } : plain;
        let r, name = fk === 1 ? "bound plain" : fk === 2 ? "fn" : "plain"; if (active) r = h.attempt(() => T.startActiveObservation("plain", () => plain(...a))); else { const w = fk === 3 ? T.observe(T.observe(fn), {}) : h.flag("opts") ? T.observe(fn, {}) : T.observe(fn); r = h.attempt(() => w(...a)); }
        h.assert(r.status === "fulfilled" && (rk === 5 ? r.value !== r.value : r.value === res), "the very same result"); await h.tick(); h.assert(thens === 0, "a result is not subscribed to"); h.assert(calls === 1 && got.length === a.length && a.every((x, i) => got[i] === x), "the same arguments"); if (fk === 1) h.assert(self && self.b === 1, "receiver of the bound function"); h.assert(o.exported.length === (fk === 3 ? 2 : 1), "one span, ended"); const sp = o.exported[0]; if (fk < 2) h.assert(sp.name === name, "named as the function"); if (!active) { const inp = sp.attributes["langfuse.observation.input"]; const want = a.length === 0 ? undefined : a.length === 1 ? a[0] : a; h.assert(want === undefined || want === null ? inp === undefined : inp === JSON.stringify(want), "arguments recorded as given"); } h.assert(sp.attributes["langfuse.observation.level"] === undefined && sp.status.code !== 2, "no error");
      },
    },
    {
      name: "children of observations", bounds: "children started from an open or already ended observation, inside or outside another active span, directly, in a wrapped function with that observation as explicit parent, and grandchildren; failing asynchronous functions left open",
      quick: { cases: TYPES.map((t) => ({ t })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const T = h.require("@langfuse/tracing"); const p = T.startObservation("p", {}, { asType: h.params.t }); const ended = h.flag("ended"), inside = h.flag("inside"), how = h.choice("how", 3); if (ended) p.end(); const other = o.start("other"); let c; const go = () => { if (how === 0) c = p.startObservation("c", {}, { asType: "tool" }).otelSpan; else if (how === 1) T.observe(() => { c = o.api.trace.getActiveSpan(); }, { parentSpanContext: p.otelSpan.spanContext(), name: "c" })(); else T.startActiveObservation("c", (x) => { c = x.startObservation("d").otelSpan.parentSpanContext.spanId === x.id ? x.otelSpan : undefined; }, { parentSpanContext: p.otelSpan.spanContext() }); };
        if (inside) o.within(other, go); else go(); h.assert(!!c && !!c.parentSpanContext && c.parentSpanContext.spanId === p.id && c.spanContext().traceId === p.traceId, "a child of that observation"); const err = new Error("x"); let span; const f = h.flag("obs") ? T.observe(async () => { span = o.api.trace.getActiveSpan(); throw err; }, { endOnExit: false, captureOutput: h.flag("cap") }) : () => T.startActiveObservation("z", async () => { span = o.api.trace.getActiveSpan(); throw err; }, { endOnExit: false }); const st = await h.settle(f()); h.assert(st.status === "rejected" && st.reason === err && !span.ended, "a failing function's span is left open when asked");
      },
    },
  ],
};
