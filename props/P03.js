"use strict";
const FIELDS = ["userId", "sessionId", "version", "traceName", "environment", "tags", "metadata", "prompt", "experiment"];
function paramsFor(h, f, t) {
  const p = {};
  if (f === "all") { const s = (n) => h.string(n + (t || ""), { min: 1, max: 1 }); const tag = s("tag"); h.assume(h.not(h.eq(tag, ","))); return { userId: s("u"), sessionId: s("se"), version: s("ve"), traceName: s("tn"), environment: "env", tags: ["t", tag, "u"], metadata: { [s("mk")]: s("mv"), fixed: "f", Other_key: "g" }, prompt: { name: s("pn"), version: h.int("pv" + (t || ""), 0, 100) } }; }
  if (f === "tags") { const n = 1 + h.choice("ntags", 2); p.tags = []; for (let i = 0; i < n; i++) { const t = h.string("tag" + i, { max: 2 }); h.assume(h.not(t.includes(","))); p.tags.push(t); } }
  else if (f === "metadata") { const k = h.string("mk", { min: 1, max: 2 }), k2 = h.string("mk2", { min: 1, max: 1 }); p.metadata = {}; p.metadata[k] = h.string("mv", { max: 2 }); p.metadata[k2] = "other"; }
  else if (f === "prompt") p.prompt = { name: h.string("pn", { min: 1, max: 2 }), version: h.int("pv", 0, 1000000) };
  else if (f === "environment") p.environment = h.string("env", { min: 1, max: 2, chars: "ab9-_" });
  else if (f === "experiment") { const s = (n) => h.string(n, { min: 1, max: 1 }); p._internalExperiment = { experimentId: s("eid"), experimentName: s("en"), experimentMetadata: s("em"), experimentDatasetId: s("ed"), experimentItemId: s("ei"), experimentItemMetadata: s("eim"), experimentItemRootObservationId: s("er") }; }
  else p[f] = h.string("v", { min: 1, max: 3 });
  return p;
}
const entries = (b) => { const out = {}; if (b) for (const [k, e] of b.getAllEntries()) out[k] = e; return out; };
const startsLf = (k) => k.startsWith("langfuse_");
module.exports = {
  assumptions: ["the transport of baggage between processes is OpenTelemetry's: the receiver gets the same entries", "tags contain no comma, prompt versions are non-negative (as the property says)"],
  harnesses: [
    {
      name: "round trip", bounds: "one attribute kind at a time (and all at once, of 1 unit each) with symbolic content: strings of up to 3 arbitrary UTF-16 units, up to 2 tags of up to 2 units, metadata keys of up to 2 units, versions 0..1e6, experiment attributes; a foreign baggage entry with symbolic key and value present or not; receiver in a fresh context",
      quick: { cases: FIELDS.concat("all").map((f) => ({ f })) },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const p = paramsFor(h, h.params.f); p.asBaggage = true;
        const prop = o.api.propagation; let baggage, sender, foreign, ctx = o.api.ROOT_CONTEXT;
        if (h.flag("foreign")) { const k = h.string("fk", { min: 1, max: 1 }), v = h.string("fv", { max: 1 }); foreign = { k, v }; ctx = prop.setBaggage(ctx, prop.createBaggage({}).setEntry(k, { value: v })); }
        o.api.context.with(ctx, () => o.core.propagateAttributes(p, () => { sender = o.start("sender"); baggage = prop.getBaggage(o.api.context.active()); }));
        h.assert(baggage !== undefined, "baggage is written on request");
        const receiver = o.tracer.startSpan("receiver", {}, prop.setBaggage(o.api.ROOT_CONTEXT, baggage));
        h.observe("sent", L.propagated(sender)); h.observe("received", L.propagated(receiver));
        h.assert(Object.keys(L.propagated(sender)).length > 0, "the sender's span has the attribute");
        h.assert(h.eq(L.propagated(receiver), L.propagated(sender)), h.params.f + ": the receiver's span has the sender's attributes");
        if (foreign) h.assert(h.eq(entries(baggage)[foreign.k], { value: foreign.v }), "foreign entry unchanged");
      },
    },
    {
      name: "nested senders", bounds: "two nested scopes that both ask for baggage, setting the same kind of attribute, different kinds, or all (1 unit each); tags from {a, b}",
      quick: { cases: [{ a: "userId", b: "userId" }, { a: "tags", b: "tags" }, { a: "metadata", b: "metadata" }, { a: "prompt", b: "prompt" }, { a: "environment", b: "environment" }, { a: "all", b: "metadata" }, { a: "tags", b: "all" }] },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const prop = o.api.propagation; const mk = (f, t) => (f === "tags" ? { tags: [h.pick("t" + t, ["a", "b"]), "c" + t] } : f === "metadata" ? { metadata: { [h.string("mk" + t, { min: 1, max: 1, chars: "ab" })]: h.string("mv" + t, { max: 1 }), ["own" + t]: "o" } } : f === "all" ? paramsFor(h, "all", t) : f === "prompt" ? { prompt: { name: h.string("pn" + t, { min: 1, max: 1 }), version: h.int("pv" + t, 0, 9) } } : f === "environment" ? { environment: h.string("e" + t, { min: 1, max: 1, chars: "ab" }) } : { [f]: h.string("v" + t, { min: 1, max: 1 }) }); const a = mk(h.params.a, 0), b = mk(h.params.b, 1); a.asBaggage = b.asBaggage = true; let outer, inner, bo, bi, after;
        o.core.propagateAttributes(a, () => { outer = o.start("outer"); bo = prop.getBaggage(o.api.context.active()); o.core.propagateAttributes(b, () => { inner = o.start("inner"); bi = prop.getBaggage(o.api.context.active()); }); after = prop.getBaggage(o.api.context.active()); }); const recv = (x) => L.propagated(o.tracer.startSpan("r", {}, prop.setBaggage(o.api.ROOT_CONTEXT, x)));
        h.assert(h.eq(recv(bi), L.propagated(inner)), "the inner scope's attributes arrive"); h.assert(h.eq(recv(bo), L.propagated(outer)), "the outer scope's attributes arrive"); h.assert(h.eq(entries(after), entries(bo)), "the inner scope's baggage ends with it"); h.assert(prop.getBaggage(o.api.context.active()) === undefined, "no baggage outside");
      },
    },
    {
      name: "not requested", bounds: "the same attributes with asBaggage false or absent; incoming baggage absent or one symbolic foreign entry",
      quick: { cases: FIELDS.map((f) => ({ f })) },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const p = paramsFor(h, h.params.f); if (h.flag("explicit")) p.asBaggage = false;
        const prop = o.api.propagation; let ctx = o.api.ROOT_CONTEXT, baggage, before;
        if (h.flag("foreign")) { const k = h.string("fk", { min: 1, max: 2 }), v = h.string("fv", { max: 1 }); before = prop.createBaggage({}).setEntry(k, { value: v }); ctx = prop.setBaggage(ctx, before); }
        o.api.context.with(ctx, () => o.core.propagateAttributes(p, () => { baggage = prop.getBaggage(o.api.context.active()); }));
        h.assert(h.eq(entries(baggage), entries(before)), h.params.f + ": baggage unchanged");
      },
    },
    {
      name: "received entries", bounds: "one received entry whose key is a symbolic string of up to 2 units, 'langfuse' followed by up to 2 symbolic units, a one-character variation of a known key, or the claim key, with a symbolic value of up to 2 units",
      quick: { cases: [{ k: "short" }, { k: "prefix" }, { k: "near" }, { k: "claim" }, { k: "env" }, { k: "envlong" }] },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const prop = o.api.propagation; const m = h.params.k; let key, val = h.string("val", m === "claim" ? { max: 2, ascii: true } : { max: 2 });
        if (m === "short") key = h.string("key", { min: 1, max: 2 });
        else if (m === "prefix") key = "langfuse" + h.string("key", { max: 2 });
        else if (m === "near") { const base = h.pick("base", ["langfuse_user_id", "langfuse_metadata_k", "langfuse_tags", "langfuse_environment"]); const c = h.string("c", { min: 1, max: 1 }); const cut = h.choice("cut", 2) ? base.indexOf("_") : 0; h.assume(h.not(h.eq(c, base[cut]))); key = base.slice(0, cut) + c + base.slice(cut + 1); }
        else if (m === "claim") key = "langfuse_trace_id";
        else { key = "langfuse_environment"; if (m === "envlong") val = h.pick("pre", ["langfuse", "langfus", "a".repeat(38)]) + h.string("suf", { max: 3, chars: "ae_Z" }); }
        const span = o.tracer.startSpan("s", {}, prop.setBaggage(o.api.ROOT_CONTEXT, prop.createBaggage({}).setEntry(key, { value: val })));
        h.observe("attrs", L.propagated(span));
        let exp = {};
        if (key === "langfuse_environment") {
          let ok = val.length >= 1 && val.length <= 40 && !val.startsWith("langfuse"); for (let i = 0; i < val.length; i++) { const c = val.charCodeAt(i); if (!((c >= 97 && c <= 122) || (c >= 48 && c <= 57) || c === 45 || c === 95)) ok = false; }
          if (ok) exp = { "langfuse.environment": val };
        }
        h.assert(h.eq(L.propagated(span), exp), m + ": only a valid environment becomes an attribute");
      },
    },
    {
      name: "requested and not requested, nested", bounds: "an outer scope that asks for baggage with all attributes or one, and an inner scope (one or two levels) that does not ask, setting the same kind, another kind or all; and the reverse; symbolic texts of 1 unit",
      quick: { cases: [{ a: "all", b: "all" }, { a: "sessionId", b: "userId" }, { a: "userId", b: "all" }, { a: "tags", b: "tags" }, { a: "metadata", b: "metadata" }, { a: "environment", b: "environment" }, { a: "prompt", b: "prompt" }, { a: "version", b: "experiment" }].flatMap((c) => [Object.assign({ rev: 0 }, c), Object.assign({ rev: 1 }, c)]) },
      run: async (h) => {
        const L = h.require("./lib.js"), o = L.otel(h, {}); const prop = o.api.propagation; const mk = (f, t) => (f === "tags" ? { tags: ["x" + t, h.pick("t" + t, ["a", "b"])] } : f === "metadata" ? { metadata: { [h.string("mk" + t, { min: 1, max: 1, chars: "ab" })]: "v" + t } } : f === "prompt" ? { prompt: { name: h.string("pn" + t, { min: 1, max: 1 }), version: 3 } } : f === "all" ? paramsFor(h, "all", t) : f === "environment" ? { environment: h.pick("e" + t, ["aa", "bb"]) } : f === "experiment" ? paramsFor(h, f) : { [f]: h.string("v" + t, { min: 1, max: 1 }) });
        const a = mk(h.params.a, 0), b = mk(h.params.b, 1); const { rev } = h.params; (rev ? b : a).asBaggage = true; let bo, bi, inner; const two = h.flag("two");
        o.core.propagateAttributes(a, () => { bo = prop.getBaggage(o.api.context.active()); const go = () => o.core.propagateAttributes(b, () => { bi = prop.getBaggage(o.api.context.active()); inner = o.start("inner"); }); if (two) o.core.propagateAttributes({ version: "between" }, go); else go(); });
        if (!rev) h.assert(h.eq(entries(bi), entries(bo)), "the inner scope writes nothing"); else { h.assert(bo === undefined, "the outer scope writes nothing"); h.assert(bi !== undefined, "the inner scope writes"); const alone = (() => { let x; o.api.context.with(o.api.ROOT_CONTEXT, () => o.core.propagateAttributes(b, () => { x = prop.getBaggage(o.api.context.active()); })); return x; })(); const keys = (x) => Object.keys(entries(x)).filter((k) => k !== "langfuse_tags" && !k.startsWith("langfuse_metadata")); h.assert(h.eq(keys(bi).sort(), keys(alone).sort()), "only what the inner scope set is written"); }
      },
    },
  ],
};
