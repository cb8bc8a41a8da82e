"use strict";
const O = "langfuse.observation.";
const TEXT = { max: 1, bmp: true };
// a client of the shape of the OpenAI SDK
function sdk(act, extra) {
  class Completions { constructor() { this.tag = "t"; } create(...args) { return act(this, args); } }
  class Chat { constructor() { this.completions = new Completions(); } }
  class OpenAI { constructor() { this.chat = new Chat(); Object.assign(this, extra || {}); } ping(...args) { return act(this, args); } }
  return new OpenAI();
}
// collects a stream; stops after `stop` chunks if given
async function consume(stream, stop) {
  const got = []; if (stop === 0) { await stream.return(); return { got }; }
  try { for await (const c of stream) { got.push(c); if (stop !== undefined && got.length >= stop) break; } } catch (e) { return { got, error: e }; }
  return { got };
}
const nested = (h, c) => (h.flag("top") ? [c, "ping"] : [c.chat.completions, "create"]);
module.exports = {
  assumptions: ["results are native promises, async iterables or plain values; a stream is read through its iterator", "errors can be converted to text"],
  harnesses: [
    {
      name: "single results", bounds: "method at top level or nested two deep; resolving or rejecting later, throwing at once, or returning a plain value; results of 13 shapes including empty, partial and foreign ones, with symbolic text; errors of 4 kinds with symbolic message; in or outside an active span, with or without an explicit parent",
      quick: { cases: ["resolve", "reject", "throw", "plain"].map((mode) => ({ mode })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); const mode = h.params.mode; const txt = h.string("txt", TEXT); const seen = []; const d = h.deferred();
        const ok = mode === "resolve" || mode === "plain"; const value = ok ? h.pick("value", [() => undefined, () => null, () => txt, () => 5, () => ({}), () => [], () => ({ choices: [] }), () => ({ choices: [null] }), () => ({ choices: [{}] }), () => ({ choices: [{ text: txt }] }), () => ({ choices: [{ message: { role: "assistant", content: txt } }], usage: null, model: "m" }), () => ({ output: [], output_text: "" }), () => ({ output_text: txt, output: [{ a: 1 }], usage: {} })])() : undefined; const error = ok ? undefined : h.pick("error", [() => new Error(txt), () => txt, () => undefined, () => ({ status: 1 })])();
        const bare = sdk((self, args) => { seen.push({ self, args }); if (mode === "throw") throw error; if (mode === "plain") return value; return d.promise; }); const w = observeOpenAI(bare, h.flag("cfg") ? { traceName: "tn", generationName: "gn" } : undefined); const [target, m] = nested(h, w); const body = { model: "gpt", messages: [{ role: "user", content: "hi" }] }; const args = h.flag("noargs") ? [] : [body, { signal: 1 }];
        const r = h.attempt(() => target[m](...args)); h.assert(seen.length === 1 && seen[0].args.length === args.length && args.every((a, i) => seen[0].args[i] === a), "called once with the same arguments"); h.assert(seen[0].self === (m === "ping" ? bare : bare.chat.completions), "on the real object");
        await h.tick();
        if (mode === "throw") { h.assert(r.status === "rejected" && r.reason === error, "throws the same error"); } else if (mode === "plain") { h.assert(r.status === "fulfilled" && r.value === value, "same value"); return; } else { h.assert(r.status === "fulfilled" && r.value instanceof Promise, "a promise"); h.assert(o.exported.length === 0, "open while the call runs"); if (mode === "resolve") d.resolve(value); else d.reject(error); const st = await h.settle(r.value); h.assert(mode === "resolve" ? st.status === "fulfilled" && st.value === value : st.status === "rejected" && st.reason === error, "same outcome"); await h.tick(); }
        h.assert(o.exported.length === 1, "one generation, ended once"); const at = o.exported[0].attributes; h.assert(at[O + "type"] === "generation", "a generation"); if (!ok) { h.assert(at[O + "level"] === "ERROR", "error level"); if (error instanceof Error) h.assert(h.eq(at[O + "status_message"], String(error)), "error message");  } else h.assert(at[O + "level"] === undefined, "no error");
      },
    },
    {
      name: "nesting and repetition", bounds: "a method under 0..4 levels of objects or class instances (accessed afresh or through a kept member), called 1..3 times, results resolving or rejecting; the same client wrapped twice with different configuration", quick: { cases: [0, 1, 2, 3, 4].map((depth) => ({ depth })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); const depth = h.params.depth, calls = 1 + h.choice("calls", 3), keep = h.flag("keep"), inst = h.flag("inst"), fail = h.flag("fail"); class Leaf { constructor() { this.n = 0; } create(x) { this.n++; return fail && this.n === 2 ? Promise.reject(new Error("e" + x)) : Promise.resolve({ choices: [{ message: { role: "assistant", content: "r" + x } }], n: this.n }); } } class Node { constructor(c) { this.c = c; } }
        const leaf = inst ? new Leaf() : { n: 0, create: Leaf.prototype.create }; let bare = leaf; for (let i = 0; i < depth; i++) bare = inst ? new Node(bare) : { c: bare }; const w = [observeOpenAI(bare, { generationName: "one" }), observeOpenAI(bare, { generationName: "two" })]; const get = (x) => { for (let i = 0; i < depth; i++) x = x.c; return x; }; const kept = w.map(get); const want = [];
        for (let i = 0; i < calls; i++) { const k = h.choice("k" + i, 2); const st = await h.settle((keep ? kept[k] : get(w[k])).create(i)); await h.tick(); const bad = fail && i === 1; h.assert(bad ? st.status === "rejected" && st.reason.message === "e" + i : st.status === "fulfilled" && st.value.n === i + 1, "the client's own result, on its own state"); want.push([k ? "two" : "one", bad ? "ERROR" : undefined]); }
        h.assert(h.eq(o.exported.map((s) => [s.name, s.attributes[O + "level"]]), want), "one generation per call, with the configuration of the wrapper used"); h.assert(leaf.n === calls, "one call each");
      },
    },
    {
      name: "streams", bounds: "promise of a stream or a stream itself, 0..3 chunks of symbolic text, failing after any of them or not, read to the end or stopped after any of them", quick: {}, mustReach: ["stopped", "failed", "complete"],
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); const n = h.choice("n", 4), fail = h.flag("fail"), direct = h.flag("direct"); const stop = h.flag("stops") ? 1 + h.choice("stop", 3) : undefined; h.assume(stop === undefined || stop <= n); const chunks = []; for (let i = 0; i < n; i++) chunks.push({ choices: [{ delta: { content: h.string("c" + i, { max: 1, ranges: [[97, 122]] }) } }] }); const error = new Error("cut"); let closed = 0, pulled = 0;
        async function* gen() { try { for (const c of chunks) { pulled++; yield c; } if (fail) throw error; } finally { closed++; } }
        const w = observeOpenAI(sdk(() => (direct ? gen() : Promise.resolve(gen())))); const r = w.chat.completions.create({ model: "g", messages: [], stream: true }); const stream = direct ? r : (await h.settle(r)).value; await h.tick(); h.assert(o.exported.length === 0, "open before the stream is read"); const res = await consume(stream, stop); await h.tick();
        const want = stop === undefined ? n : stop; h.assert(res.got.length === want && res.got.every((c, i) => c === chunks[i]), "same chunks in order"); const failed = fail && stop === undefined; h.assert(failed ? res.error === error : res.error === undefined, "same end"); h.assert(closed === 1, "the stream is closed"); h.assert(pulled === want, "nothing is read ahead");
        h.reach(failed ? "failed" : stop === undefined ? "complete" : "stopped"); h.assert(o.exported.length === 1, "the generation is ended exactly once"); if (o.exported.length !== 1) return; const at = o.exported[0].attributes; h.assert(failed ? at[O + "level"] === "ERROR" && at[O + "status_message"] === "Error: cut" : at[O + "level"] === undefined, "failure is recorded"); const text = res.got.map((c) => c.choices[0].delta.content).join(""); h.assert(h.eq(at[O + "output"], text), "what was read is recorded");
        const again = await h.settle(stream.next()); h.assert(again.status === "fulfilled" && again.value.done === true, "finished"); await h.tick(); h.assert(o.exported.length === 1, "not ended again");
      },
    },
    {
      name: "unusual results", bounds: "a promise of a class of its own; 0..5 arguments of any kind; errors of 6 kinds (named, frozen, without prototype, falsy) thrown, rejected or raised by a stream after 0..2 chunks; streams with null, empty, primitive and usage-only chunks; more than 5 tags; no tracer provider at all", quick: { cases: ["promise", "args", "reject", "throw", "cut", "chunks", "tags", "off"].map((mode) => ({ mode })) },
      run: async (h) => {
        const L = h.require("./lib.js"); const mode = h.params.mode; const o = mode === "off" ? undefined : L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); const txt = h.string("txt", { max: 1, ranges: [[97, 122]] }); const named = (n) => Object.assign(new Error("m" + txt), { name: n });
        const err = () => h.pick("err", [() => named("AbortError"), () => named("TimeoutError"), () => 0, () => "s" + txt, () => Object.freeze(new TypeError("t")), () => ({ toString: () => "obj" }), () => false])(); const body = { model: "m", messages: [] }; const one = () => { h.assert(o.exported.length === 1, "one generation, ended once"); return o.exported.length === 1 ? o.exported[0].attributes : {}; };
        if (mode === "promise") { class Own extends Promise { extra() { return 1; } } const v = { choices: [{ message: { role: "assistant", content: txt } }] }; const fail = h.flag("fail"), e = new Error("x"); const w = observeOpenAI(sdk(() => (fail ? Own.reject(e) : Own.resolve(v)))); const st = await h.settle(w.chat.completions.create(body)); await h.tick(); h.assert(fail ? st.status === "rejected" && st.reason === e : st.status === "fulfilled" && st.value === v, "same outcome"); const at = one(); h.assert(fail ? at[O + "level"] === "ERROR" : h.eq(JSON.parse(at[O + "output"]), v.choices[0].message), "recorded"); return; }
        if (mode === "args") { const n = h.choice("n", 6); const args = [body, { signal: 1 }, null, undefined, 0, "x" + txt].slice(0, n); const first = h.choice("first", 4); if (n && first) args[0] = [body, "prompt", null, undefined][first]; const seen = []; const w = observeOpenAI(sdk((_, a) => { seen.push(a); return Promise.resolve({ choices: [] }); })); const st = await h.settle(w.chat.completions.create(...args)); await h.tick(); h.assert(st.status === "fulfilled", "succeeds"); h.assert(seen.length === 1 && seen[0].length === n && seen[0].every((a, i) => a === args[i]), "every argument, as given"); one(); return; }
        if (mode === "reject" || mode === "throw") { const e = err(); const w = observeOpenAI(sdk(() => { if (mode === "throw") throw e; return Promise.reject(e); })); const r = h.attempt(() => w.chat.completions.create(body)); const st = mode === "throw" ? r : await h.settle(r.value); await h.tick(); h.assert(st.status === "rejected" && st.reason === e, "the same error"); const at = one(); h.assert(at[O + "level"] === "ERROR", "error level"); h.assert(h.eq(at[O + "status_message"], String(e)), "its message"); return; }
        if (mode === "cut") { const e = err(), n = h.choice("n", 3); async function* gen() { for (let i = 0; i < n; i++) yield { choices: [{ delta: { content: "c" } }] }; throw e; } const w = observeOpenAI(sdk(() => Promise.resolve(gen()))); const stream = (await h.settle(w.chat.completions.create(body))).value; const got = []; let caught, threw = false; try { for await (const c of stream) got.push(c); } catch (x) { caught = x; threw = true; } await h.tick(); h.assert(threw && caught === e && got.length === n, "the same error after the same chunks"); const at = one(); h.assert(at[O + "level"] === "ERROR" && h.eq(at[O + "status_message"], String(e)), "recorded as failure"); return; }
        if (mode === "chunks") { const kinds = [null, undefined, 0, "", "t" + txt, {}, { choices: [] }, { choices: [], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }, { choices: [{ delta: {}, finish_reason: "stop" }] }]; const list = [kinds[h.choice("a", kinds.length)], { choices: [{ delta: { content: "x" } }] }, kinds[h.choice("b", kinds.length)]]; async function* gen() { for (const c of list) yield c; } const w = observeOpenAI(sdk(() => Promise.resolve(gen()))); const stream = (await h.settle(w.chat.completions.create(body))).value; const got = []; let failed = false; try { for await (const c of stream) got.push(c); } catch (x) { failed = true; } await h.tick(); h.assert(!failed && got.length === 3 && got.every((c, i) => c === list[i]), "every chunk, in order"); const at = one(); h.assert(at[O + "output"] === "x" && at[O + "level"] === undefined, "the text is recorded"); return; }
        if (mode === "tags") { const tags = Array.from({ length: 7 }, (_, i) => "t" + i + txt); const w = observeOpenAI(sdk(() => Promise.resolve({ choices: [] })), { tags }); await h.settle(w.ping(body)); await h.tick(); h.assert(h.eq(one()["langfuse.trace.tags"], tags), "all tags"); return; }
        const k = h.choice("k", 3), list = [{ choices: [{ delta: { content: txt } }] }, null], v = { choices: [{ text: txt }] }, e = new Error("x"); async function* gen() { for (const c of list) yield c; } const w = observeOpenAI(sdk(() => (k === 0 ? Promise.resolve(gen()) : k === 1 ? Promise.resolve(v) : Promise.reject(e)))); const st = await h.settle(w.chat.completions.create(body)); if (k === 2) h.assert(st.status === "rejected" && st.reason === e, "same error"); else if (k === 1) h.assert(st.status === "fulfilled" && st.value === v, "same value"); else { const r = await consume(st.value); h.assert(!r.error && r.got.length === 2 && r.got.every((c, i) => c === list[i]), "same chunks"); }
      },
    },
    {
      name: "members of all kinds", bounds: "members under string and symbol keys, inherited, defined by getters, objects without prototype, functions as class instances' own members; symbolic values", quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); const sym = Symbol("own"); const txt = h.string("txt", TEXT); const bare = Object.create(null); bare.create = (x) => Promise.resolve({ choices: [{ text: x }] }); bare.v = txt; class Base { get token() { return "k" + txt; } } class C extends Base { constructor() { super(); this[sym] = txt; this.bare = bare; this.inner = { [sym]: 7, list: [1, txt] }; this.own = (x) => Promise.resolve({ choices: [], x }); } get [Symbol.toStringTag]() { return "Cc"; } }
        const c = new C(); const w = observeOpenAI(c); h.assert(h.eq(w.token, "k" + txt), "a getter's value"); h.assert(w[sym] === c[sym] && w.inner[sym] === 7, "members under symbols"); h.assert(w[Symbol.toStringTag] === "Cc", "inherited symbol member"); h.assert(w.inner.list === c.inner.list, "lists as they are"); h.assert(w.missing === undefined && w[Symbol.iterator] === undefined, "absent members stay absent"); h.assert("bare" in w && !("zz" in w) && h.eq(Object.keys(w), Object.keys(c)), "same keys"); h.assert(w instanceof C, "same class"); h.assert(h.eq(w.bare.v, txt), "member of an object without prototype");
        const st = await h.settle(w.bare.create("q")); h.assert(st.status === "fulfilled" && st.value.choices[0].text === "q", "its method works"); const s2 = await h.settle(w.own(5)); h.assert(s2.status === "fulfilled" && s2.value.x === 5, "own function member"); await h.tick(); h.assert(o.exported.length === 2, "one generation each");
      },
    },
    {
      name: "concurrent calls", bounds: "two overlapping calls finishing in either order, each succeeding or failing; next to or within an active span", quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); const ds = [h.deferred(), h.deferred()]; let i = 0; const w = observeOpenAI(sdk(() => ds[i++].promise), { userId: "u", sessionId: "s", tags: ["a"] }); const outer = h.flag("outer") ? o.start("outer") : undefined; const explicit = h.flag("explicit") ? { traceId: "0".repeat(30) + "ab", spanId: "0".repeat(14) + "cd", traceFlags: 1 } : undefined; const c = explicit ? observeOpenAI(sdk(() => ds[i++].promise), { parentSpanContext: explicit, userId: "u", sessionId: "s", tags: ["a"] }) : w; const call = (k) => c.chat.completions.create({ model: "m" + k, messages: [{ role: "user", content: "q" + k }] });
        const ps = outer ? o.within(outer, () => [call(0), call(1)]) : [call(0), call(1)]; const order = h.flag("swap") ? [1, 0] : [0, 1]; const fails = [h.flag("f0"), h.flag("f1")]; const res = ps.map((p) => p.then((v) => ({ v }), (e) => ({ e }))); for (const k of order) { if (fails[k]) ds[k].reject("e" + k); else ds[k].resolve({ choices: [{ message: { content: "a" + k } }] }); await h.tick(); await h.tick(); }
        h.assert(o.exported.length === 2, "two generations"); for (const k of [0, 1]) { const r = await res[k]; h.assert(fails[k] ? r.e === "e" + k : r.v.choices[0].message.content === "a" + k, "own outcome"); const s = o.exported[order.indexOf(k)]; const at = s.attributes; h.assert(at[O + "model.name"] === "m" + k && at[O + "input"] === JSON.stringify({ messages: [{ role: "user", content: "q" + k }] }), "own request"); h.assert(fails[k] ? at[O + "status_message"] === "e" + k && at[O + "output"] === undefined : at[O + "output"] === JSON.stringify({ content: "a" + k }), "own result"); h.assert(at["user.id"] === "u" && at["session.id"] === "s", "configured attributes"); const p = explicit || (outer && outer.spanContext()); h.assert(p ? s.parentSpanContext && s.parentSpanContext.spanId === p.spanId && s.spanContext().traceId === p.traceId : !s.parentSpanContext, "parent"); }
      },
    },
    {
      name: "configuration", bounds: "every configuration entry given or not with symbolic text (trace name, user, session, tags, generation name, metadata entry, prompt, in the call's own options a response format), method on a class instance or a plain object, promise or stream result", quick: { cases: [0, 1].flatMap((stream) => [0, 1, 2].map((which) => ({ stream, which }))) },
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); const s = h.string("s", { min: 1, max: 2, ranges: [[97, 122]] }); const cfg = {}; const { which, stream } = h.params; const has = (n, g) => (g === which ? h.flag(n) : g < which);
        if (has("tn", 0)) cfg.traceName = "t" + s; if (has("u", 0)) cfg.userId = "u" + s; if (has("se", 0)) cfg.sessionId = "s" + s; if (has("tags", 1)) cfg.tags = ["a" + s, "b"]; if (has("gn", 1)) cfg.generationName = "g" + s; if (has("meta", 1)) cfg.generationMetadata = { k: "m" + s, n: 0 }; if (has("prompt", 2)) { cfg.langfusePrompt = { name: "p" + s, version: h.int("v", 1, 9), isFallback: false }; if (h.flag("fallback")) cfg.langfusePrompt.isFallback = true; } const fmt = has("fmt", 2) ? { type: s } : undefined; const plain = h.flag("plain");
        let self; const answer = { choices: [{ message: { content: "x" } }], model: "m2" }; async function* gen() { yield { choices: [{ delta: { content: "x" } }] }; } const act = function () { self = this; return Promise.resolve(stream ? gen() : answer); }; const bare = plain ? { chat: { completions: { create: act } } } : sdk(() => undefined); if (!plain) bare.chat.completions.create = act; const w = observeOpenAI(bare, h.freeze(cfg)); const q = { model: "m", messages: [{ role: "user", content: "q" }] }; if (fmt) q.response_format = fmt; const r = (await h.settle(w.chat.completions.create(q))).value; h.assert(self === bare.chat.completions, "called on its own object"); if (stream) await consume(r);
        await h.tick(); h.assert(o.exported.length === 1, "one generation"); if (o.exported.length !== 1) return; const sp = o.exported[0], at = sp.attributes; const same = (key, want, what) => h.assert(want === undefined ? at[key] === undefined : h.eq(at[key], want), what);
        h.assert(h.eq(sp.name, cfg.generationName !== undefined ? cfg.generationName : plain ? "Object.chat" : "OpenAI.chat"), "name"); same("langfuse.trace.name", cfg.traceName, "trace name"); same("user.id", cfg.userId, "user"); same("session.id", cfg.sessionId, "session"); same("langfuse.trace.tags", cfg.tags, "tags"); const md = cfg.generationMetadata; same(O + "metadata.k", md && md.k, "metadata"); h.assert(md ? String(at[O + "metadata.n"]) === "0" : at[O + "metadata.n"] === undefined, "falsy metadata"); const lp = cfg.langfusePrompt && !cfg.langfusePrompt.isFallback ? cfg.langfusePrompt : undefined; same(O + "prompt.name", lp && lp.name, "prompt name"); same(O + "prompt.version", lp && lp.version, "prompt version"); h.assert(fmt ? h.eq(JSON.parse(at[O + "metadata.response_format"]), fmt) : at[O + "metadata.response_format"] === undefined, "response format"); h.assert(at[O + "model.name"] === (stream ? "m" : "m2"), "model");
      },
    },
    {
      name: "first token time", bounds: "stream of 1..3 chunks arriving at symbolic later times", quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); const n = 1 + h.choice("n", 3), first = 1000 + 1000 * h.choice("first", 4), step = 1000 * h.choice("step", 3); async function* gen() { for (let i = 0; i < n; i++) { h.setNow(1700000000000 + first + i * step); yield { choices: [{ delta: { content: i === 0 && h.flag("blank") ? "" : "c" } }] }; } } h.setNow(1700000000000); const w = observeOpenAI(sdk(() => Promise.resolve(gen()))); const st = (await h.settle(w.chat.completions.create({ model: "m", messages: [] }))).value; await consume(st); await h.tick(); h.assert(o.exported.length === 1, "one generation"); if (o.exported.length !== 1) return; const t = o.exported[0].attributes[O + "completion_start_time"]; h.assert(t !== undefined && JSON.parse(t) === new Date(1700000000000 + first).toISOString(), "when the first chunk arrived");
      },
    },
    {
      name: "other members", bounds: "properties of symbolic string and number value, null, undefined, booleans, arrays, dates, accessors (counted, on private state), nested objects; reading and writing", quick: {},
      run: async (h) => {
        const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); let reads = 0; const s = h.string("s", { max: 2 }), n = h.int("n", -5, 5); const arr = [1, 2], date = new Date(5); const priv = new WeakMap(); class C { constructor() { priv.set(this, s); this.arr = arr; this.date = date; this.n = n; this.nul = null; this.b = false; this.nested = { deep: { s, arr } }; } get secret() { if (!priv.has(this)) throw new TypeError("wrong receiver"); reads++; return priv.get(this); } }
        const bare = new C(), w = observeOpenAI(bare); h.assert(w.arr === arr && w.date === date && w.nul === null && w.b === false && w.missing === undefined && h.eq(w.n, n), "same values"); const r = h.attempt(() => w.secret); h.assert(r.status === "fulfilled" && h.eq(r.value, s), "accessors see the client"); h.assert(reads === 1, "read once"); h.assert(h.eq(w.nested.deep.s, s) && w.nested.deep.arr === arr, "nested values"); w.extra = s; h.assert(h.eq(bare.extra, s), "writes reach the client"); h.assert("arr" in w && !("nope" in w) && w instanceof C, "same shape"); h.assert(h.eq(Object.keys(w), Object.keys(bare)), "same keys"); h.assert(o.exported.length === 0, "no generation for reading");
      },
    },
  ],
};
