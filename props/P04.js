"use strict";
const ROOT = "langfuse.internal.is_app_root";
module.exports = {
  assumptions: ["the filter returns a boolean or throws", "one LangfuseSpanProcessor per provider; span ids are distinct"],
  harnesses: [
    {
      name: "span forests", bounds: "3 operations (thorough: 4), each starting a span (parent: none, any earlier span, or a remote parent) or ending one, the filter accepting, rejecting or throwing per span; and 4 operations (thorough: 5) with local parents and a filter that accepts or rejects; no baggage",
      quick: { cases: [{ n: 3, f: 0, full: 1 }, { n: 3, f: 1, full: 1 }, { n: 3, f: 2, full: 1 }, { n: 4, f: 0 }, { n: 4, f: 1 }] }, thorough: { cases: [{ n: 4, f: 0, full: 1 }, { n: 4, f: 1, full: 1 }, { n: 4, f: 2, full: 1 }, { n: 5, f: 0 }, { n: 5, f: 1 }], timeS: 2400 },
      run: async (h) => {
        const L = h.require("./lib.js"); const verdict = {};
        const o = L.otel(h, { params: { shouldExportSpan: ({ otelSpan }) => { const v = verdict[otelSpan.name]; if (v === 2) throw new Error("filter"); return v === 0; } } });
        const spans = [];
        for (let i = 0; i < h.params.n; i++) {
          const open = spans.filter((s) => !s.ended); const end = i > 0 && i < h.params.n - 1 && open.length > 0 && h.flag("end" + i);
          if (end) { const s = open[h.choice("which" + i, open.length)]; s.ended = true; s.span.end(); continue; }
          const name = "s" + i; verdict[name] = i === 0 ? h.params.f : h.choice("verdict" + i, h.params.full ? 3 : 2);
          let p = h.choice("parent" + i, spans.length + (h.params.full ? 2 : 1)); if (!h.params.full && p > 0) p++; // 0 none, 1 remote, else a local span
          let ctx = o.api.ROOT_CONTEXT, parent;
          if (p === 1) ctx = o.api.trace.setSpanContext(ctx, { traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b7169203331", traceFlags: 1, isRemote: true });
          if (p > 1) { parent = spans[p - 2]; ctx = o.api.trace.setSpan(ctx, parent.span); }
          const span = o.tracer.startSpan(name, {}, ctx);
          const exp = verdict[name] === 0 && !(parent && !parent.ended && verdict[parent.name] === 0);
          h.assert((span.attributes[ROOT] === true) === exp, "mark of span " + i); h.assert(span.attributes[ROOT] === undefined || span.attributes[ROOT] === true, "no other mark");
          spans.push({ name, span, ended: false });
        }
      },
    },
    {
      name: "claims", bounds: "incoming baggage with a claim that is the trace id with any two of its digits replaced by any character in either case, or a symbolic string of up to 2 units; remote parent; symbolic filter verdict; default or given filter",
      quick: { cases: [{ m: "near" }, { m: "short" }, { m: "none" }, { m: "case" }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const v = h.choice("verdict", 3); const dflt = h.flag("default");
        const o = L.otel(h, { params: dflt ? {} : { shouldExportSpan: () => { if (v === 2) throw new Error("filter"); return v === 0; } } });
        const traceId = "0af7651916cd43dd8448eb211c80319c"; let ctx = o.api.trace.setSpanContext(o.api.ROOT_CONTEXT, { traceId, spanId: "b7ad6b7169203331", traceFlags: 1, isRemote: true });
        const m = h.params.m; let claim, same = false;
        if (m === "near") { const a = h.string("a", { min: 1, max: 1, ascii: true }), b = h.string("b", { min: 1, max: 1, ascii: true }); claim = "0" + a + traceId.slice(2, 31) + b; same = h.and(h.or(h.eq(a, "a"), h.eq(a, "A")), h.or(h.eq(b, "c"), h.eq(b, "C"))); }
        else if (m === "short") claim = h.string("claim", { max: 2, ascii: true });
        else if (m === "case") { claim = traceId.toUpperCase(); same = true; }
        const prop = o.api.propagation; if (claim !== undefined) ctx = prop.setBaggage(ctx, prop.createBaggage({}).setEntry("langfuse_trace_id", { value: claim }));
        const span = o.tracer.startSpan("s", {}, ctx); const accepted = dflt || v === 0;
        h.assert(h.iff(span.attributes[ROOT] === true, h.and(accepted, h.not(same))), "marked iff accepted and not claimed");
        h.assert(span.attributes["langfuse_trace_id"] === undefined && !Object.values(span.attributes).includes(claim), "the claim is no attribute");
        const child = o.tracer.startSpan("c", {}, o.api.trace.setSpan(ctx, span));
        h.assert((child.attributes[ROOT] === true) === false, "child of an accepted or claimed span, or rejected itself, is unmarked");
      },
    },
    {
      name: "claims set by tracing wrappers", bounds: "observation started as active or by observe, symbolic filter verdict for outer and inner spans; a downstream process receiving the baggage of that scope starts an accepted span in the same or another trace",
      quick: { cases: [{ how: "active" }, { how: "observe" }] },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const t = h.require("@langfuse/tracing"); const prop = o.api.propagation;
        let bag, sc; const body = () => { bag = prop.getBaggage(o.api.context.active()); sc = o.api.trace.getActiveSpan().spanContext(); };
        if (h.params.how === "active") t.startActiveObservation("x", body); else t.observe(body, { name: "x" })();
        h.assert(bag !== undefined && bag.getEntry("langfuse_trace_id") !== undefined && bag.getEntry("langfuse_trace_id").value === sc.traceId, "the wrapper claims its trace");
        const same = h.flag("same"); const traceId = same ? sc.traceId : "0af7651916cd43dd8448eb211c80319c";
        const ctx = prop.setBaggage(o.api.trace.setSpanContext(o.api.ROOT_CONTEXT, { traceId, spanId: "b7ad6b7169203331", traceFlags: 1, isRemote: true }), bag);
        const span = o.tracer.startSpan("down", {}, ctx);
        h.assert((span.attributes[ROOT] === true) === !same, "downstream span of a claimed trace is unmarked");
      },
    },
    {
      name: "spans inside a claimed trace", bounds: "incoming baggage claiming the same trace, another trace or nothing; up to 3 spans below it, each with the remote parent, a local parent (open or ended) or in another trace, the claim present in its context or not, the filter accepting or rejecting",
      quick: { cases: [{ c: 0 }, { c: 1 }, { c: 2 }] },
      run: async (h) => {
        const L = h.require("./lib.js"); const verdict = {}; const o = L.otel(h, { params: { shouldExportSpan: ({ otelSpan }) => verdict[otelSpan.name] === true } }); const prop = o.api.propagation; const T = "0af7651916cd43dd8448eb211c80319c"; const claim = [undefined, T, "1".repeat(32)][h.params.c];
        const bag = claim && prop.createBaggage({ langfuse_trace_id: { value: claim }, other: { value: "x" } }); const remote = o.api.trace.setSpanContext(o.api.ROOT_CONTEXT, { traceId: T, spanId: "b7ad6b7169203331", traceFlags: 1, isRemote: true }); const spans = [];
        for (let i = 0; i < 3; i++) {
          const name = "s" + i; verdict[name] = h.flag("v" + i); const p = i < 2 ? h.choice("p" + i, 2 + spans.length) : h.pick("p" + i, [0, 2, 3]); let ctx = p === 0 ? remote : p === 1 ? o.api.ROOT_CONTEXT : o.api.trace.setSpan(o.api.ROOT_CONTEXT, spans[p - 2].span); const parent = p > 1 ? spans[p - 2] : undefined;
          const carried = bag && (i !== 1 || h.flag("bag" + i)); if (carried) ctx = prop.setBaggage(ctx, bag); const span = o.tracer.startSpan(name, {}, ctx); const trace = span.spanContext().traceId;
          h.assert((span.attributes[ROOT] === true) === (verdict[name] && !(parent && !parent.ended && parent.ok) && !(carried && claim === trace)), "mark of span " + i);
          spans.push({ span, ok: verdict[name], ended: false }); if (i < 1 && h.flag("end" + i)) { spans[i].span.end(); spans[i].ended = true; }
        }
      },
    },
    {
      name: "many open spans", bounds: "a symbolic choice of span under test (early, middle, late) among 1100 open accepted or rejected spans (concrete number), of which some were ended; a child of it is started, accepted",
      quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, { params: { shouldExportSpan: ({ otelSpan }) => !otelSpan.name.startsWith("no") } }); const N = 1100; const spans = []; const at = h.pick("at", [0, 1, 400, 1099]); const ok = h.flag("ok"), end = h.flag("end"), chain = h.flag("chain");
        for (let i = 0; i < N; i++) spans.push(o.tracer.startSpan((i === at ? ok : i % 3 !== 0) ? "s" + i : "no" + i, {}, chain && i > 0 ? o.api.trace.setSpan(o.api.ROOT_CONTEXT, spans[i - 1]) : o.api.ROOT_CONTEXT));
        if (end) spans[at].end(); const child = o.tracer.startSpan("child", {}, o.api.trace.setSpan(o.api.ROOT_CONTEXT, spans[at])); h.assert((child.attributes[ROOT] === true) === (!ok || end), "mark of the child"); const deep = o.tracer.startSpan("deep", {}, o.api.trace.setSpan(o.api.ROOT_CONTEXT, child)); h.assert(deep.attributes[ROOT] === undefined, "its own child is unmarked");
      },
    },
    {
      name: "wrapper inside a claim", bounds: "a wrapper (active observation or observe, one or two levels) entered in a context whose baggage claims its own trace, another trace, the same trace in upper case or nothing, with a foreign entry; a downstream process gets the scope's baggage",
      quick: { cases: [{ how: "active" }, { how: "observe" }] },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const t = h.require("@langfuse/tracing"); const prop = o.api.propagation; const T = "0af7651916cd43dd8448eb211c80319c"; const remote = h.flag("remote"); let ctx = o.api.ROOT_CONTEXT; if (remote) ctx = o.api.trace.setSpanContext(ctx, { traceId: T, spanId: "b7ad6b7169203331", traceFlags: 1, isRemote: true });
        const claim = h.pick("claim", [undefined, T, T.toUpperCase(), "1".repeat(32), "", "zz"]); let b0 = prop.createBaggage({ other: { value: "x" } }); if (claim !== undefined) b0 = b0.setEntry("langfuse_trace_id", { value: claim }); ctx = prop.setBaggage(ctx, b0); let bag, sc, bag2; const two = h.flag("two");
        const inner = () => { bag2 = prop.getBaggage(o.api.context.active()); }; const wrap = (f) => (h.params.how === "active" ? t.startActiveObservation("x", f) : t.observe(f, { name: "x" })()); const body = () => { bag = prop.getBaggage(o.api.context.active()); sc = o.api.trace.getActiveSpan().spanContext(); if (two) wrap(inner); };
        o.api.context.with(ctx, () => wrap(body)); if (!two) bag2 = bag; h.assert(!remote || sc.traceId === T, "trace continued");
        for (const b of [bag, bag2]) { h.assert(b.getEntry("other").value === "x", "foreign entry kept"); for (const same of [true, false]) { const span = o.tracer.startSpan("down", {}, prop.setBaggage(o.api.trace.setSpanContext(o.api.ROOT_CONTEXT, { traceId: same ? sc.traceId : "2".repeat(32), spanId: "b7ad6b7169203331", traceFlags: 1, isRemote: true }), b)); h.assert((span.attributes[ROOT] === true) === !same, "the downstream span of the wrapper's trace is unmarked, of another trace marked"); } }
      },
    },
  ],
};
