"use strict";
const O = "langfuse.observation.";
const SER = (n) => ({ lc: 1, type: "constructor", id: ["langchain", n], kwargs: {} });
const KINDS = ["chain", "tool", "retriever", "llm", "chat"];
const TYPE = { chain: "span", tool: "tool", retriever: "span", llm: "generation", chat: "generation" };
const letters = (h, n, max) => h.string(n, { max: max || 1, ranges: [[97, 122]] });
function setup(h, params) { const L = h.require("./lib.js"); const o = L.otel(h, {}); const { CallbackHandler } = h.require("@langfuse/langchain"); const M = h.require("@langchain/core/messages"); return { o, M, cb: new CallbackHandler(params) }; }
const call = async (h, p) => { const st = await h.settle(p); h.assert(st.status === "fulfilled", "callbacks never fail"); };
// start and end callbacks of a run of a kind
const begin = (x, kind, id, parent, input) => { const { cb, M } = x; if (kind === "chain") return cb.handleChainStart(SER("C"), { q: input }, id, parent, [], {}, undefined, "run-" + id); if (kind === "tool") return cb.handleToolStart(SER("T"), input, id, parent, [], {}, "run-" + id); if (kind === "retriever") return cb.handleRetrieverStart(SER("R"), input, id, parent, [], {}, "run-" + id); if (kind === "llm") return cb.handleLLMStart(SER("L"), [input], id, parent, { invocation_params: {} }, [], {}, "run-" + id); return cb.handleChatModelStart(SER("M"), [[new M.HumanMessage("q")]], id, parent, { invocation_params: {} }, [], {}, "run-" + id); };
const finish = (x, kind, id, parent, out) => { const { cb, M } = x; if (kind === "chain") return cb.handleChainEnd({ output: out }, id, parent); if (kind === "tool") return cb.handleToolEnd(out, id, parent); if (kind === "retriever") return cb.handleRetrieverEnd([{ pageContent: out }], id, parent); return cb.handleLLMEnd({ generations: [[kind === "llm" ? { text: out } : { text: "x", message: new M.AIMessage("x") }]] }, id, parent); };
const fail = (x, kind, id, parent, err) => { const { cb } = x; if (kind === "chain") return cb.handleChainError(err, id, parent); if (kind === "tool") return cb.handleToolError(err, id, parent); if (kind === "retriever") return cb.handleRetrieverError(err, id, parent); return cb.handleLLMError(err, id, parent); };
const outText = (kind, out) => (kind === "retriever" ? JSON.stringify([{ pageContent: out }]) : kind === "chat" ? JSON.stringify({ content: "x", role: "assistant" }) : out);
const inText = (kind, v) => (kind === "chain" ? JSON.stringify({ q: v }) : kind === "llm" ? JSON.stringify([v]) : kind === "chat" ? JSON.stringify([{ content: "q", role: "user" }]) : v);
// keys remembered by the handler for a run
function remembered(cb, ids) { const found = []; for (const v of Object.values(cb)) { if (v instanceof Map) { for (const k of v.keys()) if (ids.includes(k)) found.push(k); } else if (v instanceof Set) { for (const k of v.values()) if (ids.includes(k)) found.push(k); } else if (v && typeof v === "object") { for (const k of Object.keys(v)) if (ids.includes(k)) found.push(k); } } return found; }
const CYC = () => { const c = { name: "c" }; c.error = c; return c; };
const byName = (o, name) => o.exported.filter((s) => s.name === name);
module.exports = {
  assumptions: ["run ids are unique; a run is ended by one callback of its own kind; message lists contain LangChain messages", "errors and configured values can be converted to text", "LangChain's own message classes run as they are, with concrete contents"],
  harnesses: [
    {
      name: "run trees", bounds: "up to 3 runs: one of any of 5 kinds among chains, every parent assignment and every interleaving of starts and ends, the run under study succeeding or failing (symbolic text)",
      quick: { cases: KINDS.flatMap((kind) => [0, 1, 2].map((at) => ({ kind, at }))) }, mustReach: ["nested"],
      run: async (h) => {
        const x = setup(h), { o, cb } = x; const runs = []; const text = letters(h, "text", 2); let started = 0, ended = 0; const bad = h.flag("bad");
        while (ended < 3) {
          const open = runs.filter((r) => !r.done); const opts = []; if (started < 3) opts.push(-1); for (const r of open) opts.push(r.i); const k = opts[h.choice("step", opts.length)];
          if (k === -1) { const i = started++; const p = h.choice("parent", open.length + 1); const parent = p === open.length ? undefined : open[p]; const r = { i, id: "r" + i, kind: i === h.params.at ? h.params.kind : "chain", parent, root: !parent }; runs.push(r); if (parent) h.reach("nested"); await call(h, begin(x, r.kind, r.id, parent && parent.id, text)); h.assert(byName(o, "run-" + r.id).length === 0, "open while it runs"); }
          else { const r = runs[k]; const failing = r.i === h.params.at && bad; await call(h, failing ? fail(x, r.kind, r.id, r.parent && r.parent.id, new Error(text)) : finish(x, r.kind, r.id, r.parent && r.parent.id, text)); r.done = true; ended++; await h.tick(); const s = byName(o, "run-" + r.id); h.assert(s.length === 1, "ended when it ends"); r.span = s[0]; r.failing = failing; h.assert(h.eq(remembered(cb, [r.id]), []), "no state is left for a finished run"); h.assert(cb.last_trace_id === r.span.spanContext().traceId, "last trace id"); }
        }
        h.assert(o.exported.length === 3, "one observation per run, each ended once");
        for (const r of runs) { const a = r.span.attributes; h.assert(a[O + "type"] === TYPE[r.kind], "kind"); if (r.parent) h.assert(!!r.span.parentSpanContext && r.span.parentSpanContext.spanId === r.parent.span.spanContext().spanId && r.span.spanContext().traceId === r.parent.span.spanContext().traceId, "child of its parent run"); else h.assert(!r.span.parentSpanContext, "root"); h.assert(h.eq(a[O + "input"], inText(r.kind, text)), "its input"); if (r.failing) { h.assert(a[O + "level"] === "ERROR", "error level"); h.assert(h.eq(a[O + "status_message"], String(new Error(text))), "error message"); } else { h.assert(a[O + "level"] === undefined, "no error"); h.assert(h.eq(a[O + "output"], outText(r.kind, text)), "its output"); } }
      },
    },
    {
      name: "payload shapes", bounds: "start, end and error callbacks of 5 kinds with 12 odd payloads each (null, undefined, primitives, empty and foreign objects, error objects with details)", quick: { cases: KINDS.map((kind) => ({ kind })) },
      run: async (h) => {
        const x = setup(h), { o, cb } = x; const kind = h.params.kind; const phase = h.choice("phase", 3); const odd = h.pick("odd", [null, undefined, 0, "", "s", false, {}, [], [[]], { error: { a: 1 } }, CYC(), { error: undefined, message: "m" }, { messages: [1], generations: [[null]] }, { generations: [], output: null, content: "c" }, new Error("x"), { generations: [[{ text: "t" }]], llmOutput: { tokenUsage: null } }, { generations: [[{ text: "t", message: {} }]], llmOutput: null }]);
        if (phase === 0) { if (kind === "chain") await call(h, cb.handleChainStart(odd, odd, "r0", undefined, undefined, undefined, undefined, "run-r0")); else if (kind === "tool") await call(h, cb.handleToolStart(odd, odd, "r0", undefined, undefined, undefined, "run-r0")); else if (kind === "retriever") await call(h, cb.handleRetrieverStart(odd, odd, "r0", undefined, undefined, undefined, "run-r0")); else if (kind === "llm") await call(h, cb.handleLLMStart(odd, [], "r0", undefined, odd, undefined, odd && typeof odd === "object" && !Array.isArray(odd) ? odd : undefined, "run-r0")); else await call(h, cb.handleChatModelStart(odd, [[]], "r0", undefined, odd === null || typeof odd !== "object" ? undefined : odd, [], undefined, "run-r0")); await call(h, finish(x, kind, "r0", undefined, "done")); }
        else { await call(h, begin(x, kind, "r0", undefined, "in")); if (phase === 1) { if (kind === "chain") await call(h, cb.handleChainEnd(odd, "r0")); else if (kind === "tool") await call(h, cb.handleToolEnd(odd, "r0")); else if (kind === "retriever") await call(h, cb.handleRetrieverEnd(odd, "r0")); else await call(h, cb.handleLLMEnd(odd, "r0")); } else { await call(h, fail(x, kind, "r0", undefined, odd)); } }
        await h.tick(); h.assert(byName(o, "run-r0").length === 1 && o.exported.length === 1, "the run is recorded and ended once"); h.assert(h.eq(remembered(cb, ["r0"]), []), "no state is left"); if (phase === 2 && o.exported.length === 1) { const a = o.exported[0].attributes; h.assert(a[O + "level"] === "ERROR", "error level"); if (odd instanceof Error) h.assert(a[O + "status_message"].startsWith("Error: x"), "message"); }
        await call(h, finish(x, kind, "r0", undefined, "again")); await call(h, fail(x, kind, "unknown", undefined, new Error("e"))); await call(h, cb.handleAgentEnd(odd, "unknown")); await h.tick(); h.assert(o.exported.length === 1, "callbacks of unknown runs do nothing");
      },
    },
    {
      name: "names and start payloads", bounds: "5 kinds; explicit name (symbolic), name from the serialized id, or neither; tags, hidden tag, metadata with reserved and other keys", quick: { cases: KINDS.map((kind) => ({ kind })) },
      run: async (h) => {
        const x = setup(h, h.flag("ver") ? { version: "v9" } : undefined), { o, cb } = x; const kind = h.params.kind; const nm = h.choice("nm", 4); const name = nm === 0 ? h.string("name", { min: 1, max: 2 }) : undefined; const ser = nm === 1 ? SER("Cls") : nm === 2 ? { id: [] } : nm === 3 ? undefined : SER("Cls"); const tg = h.choice("tags", 3); const tags = [undefined, ["a", "b"], ["langsmith:hidden"]][tg]; const val = letters(h, "val"); const md = h.flag("md") ? { langfuseUserId: "U", langfuseSessionId: "S", langfusePrompt: { name: "p", version: 1, isFallback: false }, keep: val, n: 1 } : undefined; const id = "r0";
        if (kind === "chain") await call(h, cb.handleChainStart(ser, { q: 1 }, id, undefined, tags, md, undefined, name)); else if (kind === "tool") await call(h, cb.handleToolStart(ser, "i", id, undefined, tags, md, name)); else if (kind === "retriever") await call(h, cb.handleRetrieverStart(ser, "i", id, undefined, tags, md, name)); else if (kind === "llm") await call(h, cb.handleLLMStart(ser, ["i"], id, undefined, undefined, tags, md, name)); else await call(h, cb.handleChatModelStart(ser, [[new x.M.HumanMessage("q")]], id, undefined, undefined, tags, md, name));
        await call(h, finish(x, kind, id, undefined, "o")); await h.tick(); h.assert(o.exported.length === 1, "recorded"); if (o.exported.length !== 1) return; const s = o.exported[0], a = s.attributes; if (nm === 0) h.assert(h.eq(s.name, name), "given name"); else if (nm === 1) h.assert(s.name === "Cls", "class name"); else h.assert(typeof s.name === "string" && s.name.length > 0, "some name");
        h.assert(h.eq(a[O + "metadata.tags"], tags ? JSON.stringify(tags) : undefined), "tags"); h.assert(h.eq(a[O + "metadata.keep"], md ? val : undefined) && h.eq(a[O + "metadata.n"], md ? "1" : undefined), "metadata"); for (const k of ["langfuseUserId", "langfuseSessionId", "langfusePrompt"]) h.assert(a[O + "metadata." + k] === undefined, "reserved keys are not metadata"); h.assert(a[O + "level"] === (tg === 2 ? "DEBUG" : undefined), "hidden runs are debug"); if (kind === "chain" && md) h.assert(a["user.id"] === "U" && a["session.id"] === "S", "user and session of a root chain");
      },
    },
    {
      name: "trace attributes", bounds: "handler user, session, tags, version, metadata present or not; root chain's tags and metadata overriding; nested chain", quick: {},
      run: async (h) => {
        const hu = h.flag("hu") ? h.string("u", { min: 1, max: 2, bmp: true }) : undefined, hs = h.flag("hs") ? "HS" : undefined, tags = h.flag("ht") ? ["x", "y"] : undefined, tm = h.flag("tm") ? { a: "A", b: { c: 1 } } : undefined; const x = setup(h, { userId: hu, sessionId: hs, tags, traceMetadata: tm, version: "1" }), { o, cb } = x; const mu = h.choice("mu", 3); const md = [undefined, { langfuseUserId: "MU", langfuseSessionId: "MS" }, { langfuseUserId: 5 }][mu]; const rt = h.flag("rt") ? ["y", "z"] : undefined;
        await call(h, cb.handleChainStart(SER("C"), { q: 1 }, "r0", undefined, rt, md, undefined, "root")); await call(h, cb.handleChainStart(SER("C"), { q: 1 }, "r1", "r0", [], { langfuseUserId: "NO" }, undefined, "child")); await call(h, cb.handleChainEnd({ output: "o" }, "r1", "r0")); await call(h, cb.handleChainEnd({ output: "o" }, "r0")); await h.tick(); const a = byName(o, "root")[0].attributes; h.assert(h.eq(a["user.id"], mu === 1 ? "MU" : hu), "user"); h.assert(h.eq(a["session.id"], mu === 1 ? "MS" : hs), "session"); const want = []; for (const t of [...(rt || []), ...(tags || [])]) if (!want.includes(t)) want.push(t); h.assert(want.length ? h.eq(a["langfuse.trace.tags"], want) : a["langfuse.trace.tags"] === undefined || a["langfuse.trace.tags"].length === 0, "tags once each"); h.assert(h.eq(a["langfuse.trace.metadata.a"], tm ? "A" : undefined) && h.eq(a["langfuse.trace.metadata.b"], tm ? "{\"c\":1}" : undefined), "trace metadata"); h.assert(a["langfuse.version"] === "1" && byName(o, "child")[0].attributes["langfuse.version"] === "1", "version on every observation"); h.assert(byName(o, "child")[0].attributes["user.id"] !== "NO", "only the root run sets the user");
      },
    },
    {
      name: "usage and outputs", bounds: "message usage with symbolic totals and up to 2 details per side, legacy token usage, or none; text or message result; model name; first token time", quick: { cases: [0, 1, 2].map((form) => ({ form })) },
      run: async (h) => {
        const x = setup(h), { o, cb, M } = x; const form = h.params.form; const i = h.int("i", 0, 1000000), u = h.int("u", 0, 1000000), t = h.int("t", 0, 2000000); const side = (n, total, keys) => { const k = h.choice(n, 4); if (k === 0) return undefined; const d = {}; let sum = 0; for (let j = 0; j < k - 1; j++) { d[keys[j]] = h.int(n + j, 0, 1000000); sum = sum + d[keys[j]]; } h.assume(sum <= total); return d; };
        let gen, llmOutput, id = {}, od = {}; if (form === 0) { const m = new M.AIMessage("out"); const um = { input_tokens: i, output_tokens: u, total_tokens: t }; const a = side("id", i, ["cache_read", "audio"]), b = side("od", u, ["reasoning", "audio"]); if (a) um.input_token_details = id = a; if (b) um.output_token_details = od = b; m.usage_metadata = um; m.response_metadata = h.flag("model") ? { model_name: "gpt-x" } : {}; gen = { text: "out", message: m }; } else if (form === 1) { gen = { text: "out" }; llmOutput = { tokenUsage: { promptTokens: i, completionTokens: u, totalTokens: t } }; } else gen = { text: "out" };
        const tok = h.choice("tok", 3); await call(h, begin(x, "llm", "r0", undefined, "q")); h.setNow(1700000005000); if (tok > 0) await call(h, cb.handleLLMNewToken(h.flag("blank") ? "" : "a", {}, "r0")); h.setNow(1700000009000); if (tok > 1) await call(h, cb.handleLLMNewToken("b", {}, "r0")); if (form === 2 && h.flag("err")) { await call(h, cb.handleLLMError(new Error("e"), "r0")); h.assert(h.eq(remembered(cb, ["r0"]), []), "no state is left"); return; } await call(h, cb.handleLLMEnd({ generations: [[{ text: "first" }], h.flag("more") ? [{ text: "other" }, gen] : [gen]], llmOutput }, "r0")); h.assert(h.eq(remembered(cb, ["r0"]), []), "no state is left"); await h.tick(); const a = o.exported[0].attributes; const ud = a[O + "usage_details"] === undefined ? {} : JSON.parse(a[O + "usage_details"]);
        if (form === 2) { h.assert(Object.values(ud).every((v) => v === undefined || v === null), "no usage is invented"); } else { let si = ud.input, so = ud.output; for (const [k, v] of Object.entries(id)) { h.assert(h.eq(ud["input_" + k], v), "input detail"); si = si + v; } for (const [k, v] of Object.entries(od)) { h.assert(h.eq(ud["output_" + k], v), "output detail"); so = so + v; } h.assert(h.and(h.eq(si, i), h.eq(so, u), h.eq(ud.total, t)), "every token counted once"); }
        if (form === 0) h.assert(h.eq(JSON.parse(a[O + "output"]), { content: "out", role: "assistant" }), "message output"); else h.assert(a[O + "output"] === "out", "text output"); h.assert(h.eq(a[O + "completion_start_time"], tok > 0 ? JSON.stringify(new Date(1700000005000)) : undefined), "time of the first token"); if (form === 0) h.assert(h.eq(a[O + "model.name"], gen.message.response_metadata.model_name), "the model that answered");
      },
    },
    {
      name: "generation request and prompt link", bounds: "parameters, model from invocation or metadata, tools; prompt registered by a sibling run's metadata, used once, fallback or not; parent finishing or failing", quick: {},
      run: async (h) => {
        const x = setup(h), { o, cb } = x; const temp = h.int("temp", 0, 2); const ip = h.choice("ip", 5); const inv = [undefined, {}, { model: "im", temperature: temp, max_tokens: null, tools: [{ t: 1 }], tool_choice: "auto" }, { model: "im", top_p: temp, frequency_penalty: 0, presence_penalty: 1, request_timeout: 5, other: 1, tool_choice: "none" }, { model: "im", tools: [] }][ip]; const md = h.flag("md") ? { ls_model_name: "mm" } : undefined; const pk = h.choice("pk", 3); const version = h.int("version", 1, 9); const prompt = pk === 0 ? undefined : { name: "pn", version, isFallback: pk === 2 };
        await call(h, cb.handleChainStart(SER("C"), { q: 1 }, "root", undefined, [], {}, undefined, "root")); if (h.flag("older")) { h.assume(pk > 0); await call(h, cb.handleChainStart(SER("P"), { q: 1 }, "pt0", "root", [], { langfusePrompt: { name: "older", version: 77, isFallback: false } }, undefined, "pt0")); await call(h, cb.handleChainEnd({ output: "o" }, "pt0", "root")); } if (prompt) { await call(h, cb.handleChainStart(SER("P"), { q: 1 }, "pt", "root", [], { langfusePrompt: prompt }, undefined, "pt")); await call(h, cb.handleChainEnd({ output: "o" }, "pt", "root")); } for (const id of ["g0", "g1"]) { await call(h, cb.handleLLMStart(SER("L"), ["q"], id, "root", { invocation_params: inv }, [], md, id)); await call(h, cb.handleLLMEnd({ generations: [[{ text: "t" }]] }, id, "root")); } const extra = h.flag("extra"); if (extra) await call(h, cb.handleChainStart(SER("P"), { q: 1 }, "pt2", "root", [], { langfusePrompt: { name: "z", version: 1, isFallback: false } }, undefined, "pt2")); if (h.flag("err")) await call(h, cb.handleChainError(new Error("e"), "root")); else await call(h, cb.handleChainEnd({ output: "o" }, "root")); await h.tick();
        const g0 = byName(o, "g0")[0].attributes, g1 = byName(o, "g1")[0].attributes; h.assert(h.eq(g0[O + "prompt.name"], pk === 1 ? "pn" : undefined) && h.eq(g0[O + "prompt.version"], pk === 1 ? version : undefined), "the next generation of the parent is linked"); h.assert(g1[O + "prompt.name"] === undefined, "only that one"); h.assert(g0[O + "model.name"] === (ip >= 2 ? "im" : md ? "mm" : undefined), "model"); const mp = JSON.parse(g0[O + "model.parameters"] || "{}"); h.assert(ip === 2 ? h.eq(mp, { temperature: temp }) : ip === 3 ? h.eq(mp, { top_p: temp, frequency_penalty: 0, presence_penalty: 1, request_timeout: 5 }) : h.eq(mp, {}), "parameters that are set"); h.assert(h.eq(JSON.parse(g0[O + "input"]), ip === 2 ? { messages: ["q"], tools: [{ t: 1 }], tool_choice: "auto" } : ip === 3 ? { messages: ["q"], tool_choice: "none" } : ip === 4 ? { messages: ["q"], tools: [] } : ["q"]), "input"); h.assert(h.eq(remembered(cb, ["root", "g0", "g1", "pt"]), []), "no state is left");
      },
    },
    {
      name: "messages", bounds: "lists of 0..2 messages of 9 kinds (human, text and parts; assistant with and without tool calls of both forms; system; tool; function; custom role), as chat model input (one or two lists), chain input under either key, chain output and model result; lists with foreign entries; single-text inputs", quick: { cases: [0, 1, 2, 3, 4].map((where) => ({ where })) },
      run: async (h) => {
        const x = setup(h), { o, cb, M } = x; const parts = [{ type: "text", text: " t " }, { type: "image_url", image_url: { url: "u" } }]; const tc = [{ id: "1", name: "f", args: { a: 1 } }, { id: "2", name: "g", args: {} }]; const oai = [{ id: "1", type: "function", function: { name: "f", arguments: "{}" } }, { id: "2", type: "function", function: { name: "g", arguments: "{}" } }];
        const make = (n) => [() => [new M.HumanMessage(" hi "), { content: " hi ", role: "user" }], () => [new M.HumanMessage({ content: parts }), { content: parts, role: "user" }], () => [new M.AIMessage("a"), { content: "a", role: "assistant" }], () => [new M.AIMessage({ content: "", tool_calls: tc }), { content: "", role: "assistant", tool_calls: tc.map((t) => Object.assign({ type: "tool_call" }, t)) }], () => [new M.AIMessage({ content: "", tool_calls: tc, additional_kwargs: { tool_calls: oai } }), { content: "", role: "assistant", tool_calls: oai }], () => [new M.SystemMessage({ content: parts }), { content: parts, role: "system" }], () => [new M.ToolMessage({ content: "r", tool_call_id: "1", name: "f" }), { content: "r", additional_kwargs: {}, role: "f" }], () => [new M.AIMessage({ content: "c", additional_kwargs: { function_call: { name: "f", arguments: "{}" } } }), { content: "c", role: "assistant", additional_kwargs: { function_call: { name: "f", arguments: "{}" } } }], () => [new M.ChatMessage("c", "critic"), undefined]][h.choice(n, 9)]();
        const same = (got, want) => Array.isArray(got) && got.length === want.length && want.every((w, i) => (w === undefined ? got[i] && got[i].content === "c" : h.eq(norm(got[i], w), w))); const norm = (g, w) => { if (!g || !w.tool_calls || !Array.isArray(g.tool_calls)) return g; return Object.assign({}, g, { tool_calls: g.tool_calls.map((t) => (t && t.name && !t.type ? Object.assign({ type: "tool_call" }, t) : t)) }); };
        const n = h.choice("n", 3); const list = []; for (let i = 0; i < n; i++) list.push(make("m" + i)); const msgs = list.map((p) => p[0]), want = list.map((p) => p[1]); const w = h.params.where; let got;
        if (w === 0) { const split = h.flag("split"); await call(h, cb.handleChatModelStart(SER("M"), split ? [msgs.slice(0, 1), msgs.slice(1)] : [msgs], "r0", undefined, {}, [], {}, "run-r0")); await call(h, cb.handleLLMEnd({ generations: [[{ text: "t" }]] }, "r0")); await h.tick(); got = JSON.parse(o.exported[0].attributes[O + "input"] || "[]"); h.assert(same(got, want), "every message as sent, in order"); }
        else if (w === 1 || w === 2) { const key = w === 1 ? "input" : "messages"; const odd = h.choice("odd", 3); const inputs = odd === 1 ? { [key]: [...msgs, "foreign"] } : odd === 2 ? { content: " text " } : { [key]: msgs, other: 1 }; await call(h, cb.handleChainStart(SER("C"), inputs, "r0", undefined, [], {}, undefined, "run-r0")); await call(h, cb.handleChainEnd({ output: "o" }, "r0")); await h.tick(); h.assert(o.exported.length === 1, "recorded"); if (o.exported.length !== 1) return; const raw = o.exported[0].attributes[O + "input"]; if (odd === 2) h.assert(raw === " text ", "the text"); else if (odd === 1) { const v = JSON.parse(raw); h.assert(v && Array.isArray(v[key]) && v[key].length === n + 1 && v[key][n] === "foreign", "foreign lists as they are"); } else h.assert(same(JSON.parse(raw), want), "every message, in order"); }
        else if (w === 3) { await call(h, begin(x, "chain", "r0", undefined, "q")); const odd = h.flag("odd"); await call(h, cb.handleChainEnd(odd ? { output: 5, messages: msgs } : { messages: msgs }, "r0")); await h.tick(); const v = JSON.parse(o.exported[0].attributes[O + "output"]); h.assert(v && same(v.messages, want), "every message of the result"); }
        else { h.assume(n === 1); await call(h, begin(x, "llm", "r0", undefined, "q")); await call(h, cb.handleLLMEnd({ generations: [[{ text: "t", message: msgs[0] }]] }, "r0")); await h.tick(); h.assert(o.exported.length === 1 && same([JSON.parse(o.exported[0].attributes[O + "output"])], want), "the model's message"); }
        h.assert(h.eq(remembered(cb, ["r0"]), []), "no state is left");
      },
    },
    {
      name: "concurrent traces", bounds: "two interleaved traces through one handler (ids that differ only in their last character, or first), each a chain with a prompt, a streaming generation and a tool; every order of prompts and generation starts, first tokens, ends; the second trace with or without its own user, session, tags; handler values must not carry over", quick: { cases: [0, 1].flatMap((ids) => [0, 1].map((first) => ({ ids, first }))) },
      run: async (h) => {
        const base = "0198f2a4-7c31-7e52-8a11-3f0c5d9e7b0", id = (k, t) => (h.params.ids ? t + "-" + base + k : base + k + t); const x = setup(h, { userId: "HU", tags: ["h"] }), { o, cb } = x; const s = letters(h, "s"); const own = h.flag("own"), late = h.flag("late"), swapG = h.flag("swapG"), swapT = h.flag("swapT"), swapE = h.flag("swapE"), bad = h.flag("bad"); const T = h.params.first ? ["b", "a"] : ["a", "b"]; const mdOf = (t) => (t === T[0] ? { langfuseUserId: "U" + t, langfuseSessionId: "S" + t } : own ? { langfuseUserId: "V" + t } : {}); const tg = (t) => (t === T[0] ? ["only-" + t] : []);
        for (const t of T) { await call(h, cb.handleChainStart(SER("C"), { q: t }, id(0, t), undefined, tg(t), mdOf(t), undefined, "root-" + t)); } for (const t of T) { await call(h, cb.handleChainStart(SER("P"), { q: 1 }, id(1, t), id(0, t), [], { langfusePrompt: { name: "p-" + t + s, version: t === "a" ? 1 : 2, isFallback: false } }, undefined, "pt-" + t)); if (!late) await call(h, cb.handleChainEnd({ output: "o" }, id(1, t), id(0, t))); }
        for (const t of swapG ? [T[1], T[0]] : T) await call(h, cb.handleLLMStart(SER("L"), ["q" + t], id(2, t), id(0, t), { invocation_params: {} }, [], {}, "gen-" + t)); const at = {}; let now = 1700000010000; for (const t of swapT ? [T[1], T[0]] : T) { h.setNow(now); at[t] = now; now += 1000; await call(h, cb.handleLLMNewToken("x", {}, id(2, t))); } for (const t of T) { h.setNow(now); now += 1000; await call(h, cb.handleLLMNewToken("y", {}, id(2, t))); await call(h, cb.handleToolStart(SER("T"), "i", id(3, t), id(0, t), [], {}, "tool-" + t)); await call(h, cb.handleToolEnd("to" + t, id(3, t), id(0, t))); }
        for (const t of swapE ? [T[1], T[0]] : T) { if (bad && t === "a") await call(h, cb.handleLLMError(new Error("e" + t), id(2, t), id(0, t))); else await call(h, cb.handleLLMEnd({ generations: [[{ text: "g" + t }]] }, id(2, t), id(0, t))); if (late) await call(h, cb.handleChainEnd({ output: "o" }, id(1, t), id(0, t))); await call(h, cb.handleChainEnd({ output: "r" + t }, id(0, t))); } await h.tick();
        h.assert(o.exported.length === 8, "every run is recorded once"); const get = (n) => { const l = byName(o, n); h.assert(l.length === 1, "once: " + n.slice(0, 4)); return l[0] || { attributes: {}, spanContext: () => ({}) }; };
        for (const t of T) { const r = get("root-" + t), g = get("gen-" + t), tl = get("tool-" + t), pt = get("pt-" + t); const rid = r.spanContext().spanId; for (const c of [g, tl, pt]) h.assert(!!c.parentSpanContext && c.parentSpanContext.spanId === rid && c.spanContext().traceId === r.spanContext().traceId, "child of its own trace"); h.assert(!r.parentSpanContext, "own trace"); h.assert(r.attributes[O + "output"] === "r" + t && tl.attributes[O + "output"] === "to" + t, "own results"); const ga = g.attributes; h.assert(bad && t === "a" ? ga[O + "level"] === "ERROR" : ga[O + "output"] === "g" + t && ga[O + "level"] === undefined, "own outcome"); h.assert(h.eq(ga[O + "prompt.name"], "p-" + t + s) && ga[O + "prompt.version"] === (t === "a" ? 1 : 2), "own prompt"); if (!(bad && t === "a")) h.assert(ga[O + "completion_start_time"] === JSON.stringify(new Date(at[t])), "own first token"); const ra = r.attributes; h.assert(ra["user.id"] === (t === T[0] ? "U" + t : own ? "V" + t : "HU"), "own user"); h.assert(ra["session.id"] === (t === T[0] ? "S" + t : undefined), "own session"); h.assert(h.eq(ra["langfuse.trace.tags"], [...tg(t), "h"]), "own tags"); h.assert(ga[O + "metadata.tags"] === undefined, "no tags of another run"); }
        h.assert(h.eq(remembered(cb, T.flatMap((t) => [0, 1, 2, 3].map((k) => id(k, t)))), []), "no state is left");
      },
    },
    {
      name: "many runs", bounds: "one chain with 12 or 70 runs open at once, or 2 or 3 runs without a chain, each streaming where it can; ended in order or in reverse", quick: { cases: [2, 3, 12, 70].flatMap((n) => ["tool", "llm"].map((kind) => ({ n, kind }))) },
      run: async (h) => {
        const x = setup(h), { o, cb } = x; const { n, kind } = h.params; const s = letters(h, "s"); const has = n > 3, up = has ? "top" : undefined; if (has) await call(h, begin(x, "chain", "top", undefined, "q")); const ids = Array.from({ length: n }, (_, i) => "id-" + i); for (const i of ids) await call(h, begin(x, kind, i, up, i)); h.setNow(1700000003000); if (kind === "llm") for (const i of ids) await call(h, cb.handleLLMNewToken("t", {}, i)); h.setNow(1700000009000); for (const i of h.flag("back") ? ids.slice().reverse() : ids) await call(h, finish(x, kind, i, up, "o" + s + i)); if (has) await call(h, finish(x, "chain", "top", undefined, "done")); await h.tick(); h.assert(o.exported.length === n + (has ? 1 : 0), "every run is recorded once"); const top = byName(o, "run-top"); h.assert(top.length === (has ? 1 : 0), "the chain too"); if (top.length !== (has ? 1 : 0)) return; for (const i of ids) { const l = byName(o, "run-" + i); h.assert(l.length === 1, "once"); if (l.length !== 1) return; h.assert(has ? !!l[0].parentSpanContext && l[0].parentSpanContext.spanId === top[0].spanContext().spanId : !l[0].parentSpanContext, "its parent"); h.assert(h.eq(l[0].attributes[O + "output"], "o" + s + i), "its output"); if (kind === "llm") h.assert(l[0].attributes[O + "completion_start_time"] === JSON.stringify(new Date(1700000003000)), "its first token"); } h.assert(h.eq(remembered(cb, ids.concat("top")), []), "no state is left");
      },
    },
    {
      name: "errors of any name, outputs of any kind", bounds: "5 kinds of runs failing with errors under 9 names in use and any name of 1..2 units, at the root or nested; tool outputs and retrieved documents of 8 kinds; metadata keys of any name (1..2 units after 'langfuse', or plain); agent actions of tools under any name, underscore included; trace metadata of falsy values", quick: { cases: KINDS.map((kind) => ({ mode: "error", kind })).concat([{ mode: "tool" }, { mode: "documents" }, { mode: "keys" }, { mode: "action" }, { mode: "meta" }, { mode: "both" }]) },
      run: async (h) => {
        const mode = h.params.mode; const sym = () => h.string("sym", { min: 1, max: 2, ascii: true });
        if (mode === "error") { const x = setup(h), { o, cb } = x; const nest = h.flag("nest"); if (nest) await call(h, begin(x, "chain", "top", undefined, "q")); const p = nest ? "top" : undefined; const nm = h.pick("nm", ["AbortError", "GraphInterrupt", "GraphBubbleUp", "NodeInterrupt", "ToolInputParsingException", "ParentCommand", "GraphRecursionError", "TimeoutError", "OutputParserException", undefined]); const e = new Error("m"); Object.defineProperty(e, "name", { value: nm === undefined ? sym() : nm, enumerable: false, configurable: true, writable: true }); await call(h, begin(x, h.params.kind, "r0", p, "q")); await call(h, fail(x, h.params.kind, "r0", p, e)); if (nest) await call(h, finish(x, "chain", "top", undefined, "o")); await h.tick(); const l = byName(o, "run-r0"); h.assert(l.length === 1, "ended once"); if (l.length !== 1) return; h.assert(l[0].attributes[O + "level"] === "ERROR", "error level"); h.assert(h.eq(l[0].attributes[O + "status_message"], String(e)), "its message"); h.assert(h.eq(remembered(cb, ["r0", "top"]), []), "no state is left"); return; }
        if (mode === "tool") { const x = setup(h), { o, cb, M } = x; const w = h.choice("w", 9); const s = letters(h, "s"); const out = [() => s, () => ({ a: s }), () => [s, 1], () => 5, () => 0, () => false, () => true, () => "", () => new M.ToolMessage({ content: "c", tool_call_id: "1", name: "n" })][w](); await call(h, begin(x, "tool", "r0", undefined, "q")); await call(h, cb.handleToolEnd(out, "r0")); await h.tick(); const a = o.exported[0].attributes; const got = a[O + "output"]; h.assert(typeof out === "string" ? h.eq(got, out) : w === 8 ? typeof got === "string" && got.includes("c") : got !== undefined && h.eq(JSON.parse(got), out), "the tool's output"); return; }
        if (mode === "documents") { const x = setup(h), { o, cb } = x; const n = h.pick("n", [0, 1, 3, 30]); const docs = Array.from({ length: n }, (_, i) => ({ pageContent: "c" + i, metadata: { i } })); await call(h, begin(x, "retriever", "r0", undefined, "q")); await call(h, cb.handleRetrieverEnd(docs, "r0")); await h.tick(); h.assert(h.eq(JSON.parse(o.exported[0].attributes[O + "output"]), docs), "every document"); return; }
        if (mode === "keys") { const x = setup(h), { o, cb } = x; const k = h.pick("pre", ["langfuse", "langfuse_", "ls_", "", "langfuseU"]) + sym(); const kind = h.choice("kind", 3); const md = { [k]: "v" }; if (kind === 0) await call(h, cb.handleChainStart(SER("C"), { q: 1 }, "r0", undefined, [], md, undefined, "r")); else if (kind === 1) await call(h, cb.handleToolStart(SER("T"), "i", "r0", undefined, [], md, "r")); else await call(h, cb.handleLLMStart(SER("L"), ["q"], "r0", undefined, {}, [], md, "r")); await call(h, finish(x, ["chain", "tool", "llm"][kind], "r0", undefined, "o")); await h.tick(); h.assert(h.eq(o.exported[0].attributes[O + "metadata." + k], "v"), "the entry is recorded under its own key"); return; }
        if (mode === "action") { const x = setup(h), { o, cb } = x; const pre = h.pick("pre", ["", "_"]); const t = pre + h.string("t", { min: 1, max: 2, ranges: [[48, 57], [65, 90], [95, 95], [97, 122]] }); const own = h.flag("own"); await call(h, begin(x, "chain", "top", undefined, "q")); await call(h, begin(x, "chain", "ag", "top", "q")); await call(h, cb.handleAgentAction({ tool: t, toolInput: own ? { a: 1 } : "i", log: "l" }, "ag", "top")); if (h.flag("fin")) await call(h, cb.handleAgentEnd({ returnValues: { output: "f" }, log: "" }, "ag", "top")); await call(h, finish(x, "chain", "ag", "top", "o")); await call(h, finish(x, "chain", "top", undefined, "to")); await h.tick(); h.assert(o.exported.length === 3, "agent, chain and action"); const act = o.exported[0], ag = byName(o, "run-ag")[0], top = byName(o, "run-top")[0]; h.assert(h.eq(act.name, t), "the action is named after its tool"); h.assert(!!ag && !!act.parentSpanContext && act.parentSpanContext.spanId === ag.spanContext().spanId, "child of the agent"); h.assert(h.eq(JSON.parse(act.attributes[O + "input"]).toolInput, own ? { a: 1 } : "i"), "its input"); h.assert(ag.attributes[O + "output"] === "o" && top.attributes[O + "output"] === "to", "results of their own"); return; }
        if (mode === "both") { const x = setup(h), { o, cb, M } = x; const i = h.int("i", 0, 1000), u = h.int("u", 0, 1000); const m = new M.AIMessage("out"); const cr = h.int("cr", 0, 1000), re = h.int("re", 0, 1000); h.assume(h.and(cr <= i, re <= u)); m.usage_metadata = { input_tokens: i, output_tokens: u, total_tokens: i + u, input_token_details: { cache_read: cr }, output_token_details: { reasoning: re } }; await call(h, begin(x, "llm", "r0", undefined, "q")); await call(h, cb.handleLLMEnd({ generations: [[{ text: "out", message: m }]], llmOutput: { tokenUsage: { promptTokens: i, completionTokens: u, totalTokens: i + u } } }, "r0")); await h.tick(); const ud = JSON.parse(o.exported[0].attributes[O + "usage_details"]); h.assert(h.and(h.eq(ud.input, i - cr), h.eq(ud.input_cache_read, cr), h.eq(ud.output, u - re), h.eq(ud.output_reasoning, re), h.eq(ud.total, i + u)), "every token once, cached ones apart"); return; }
        const tm = { zero: 0, no: false, empty: "", list: [], obj: { a: letters(h, "s") }, nul: null }; const x = setup(h, { traceMetadata: tm }), { o } = x; await call(h, begin(x, "chain", "r0", undefined, "q")); await call(h, finish(x, "chain", "r0", undefined, "o")); await h.tick(); const a = o.exported[0].attributes; const p = "langfuse.trace.metadata."; h.assert(a[p + "zero"] === "0" && a[p + "no"] === "false" && a[p + "empty"] === "" && a[p + "list"] === "[]" && a[p + "nul"] === "null" && h.eq(JSON.parse(a[p + "obj"]), tm.obj), "trace metadata of every kind");
      },
    },
    {
      name: "unknown parents", bounds: "run of any kind whose parent is unknown or already finished, next to another open run", quick: { cases: KINDS.map((kind) => ({ kind })) },
      run: async (h) => {
        const x = setup(h), { o } = x; await call(h, begin(x, "chain", "other", undefined, "q")); const done = h.flag("done"); if (done) { await call(h, begin(x, "chain", "gone", undefined, "q")); await call(h, finish(x, "chain", "gone", undefined, "o")); } await call(h, begin(x, h.params.kind, "r0", "gone", "q")); await call(h, finish(x, h.params.kind, "r0", "gone", "o")); await call(h, finish(x, "chain", "other", undefined, "o")); await h.tick(); const s = byName(o, "run-r0"); h.assert(s.length === 1 && o.exported.length === (done ? 3 : 2), "recorded once"); const other = byName(o, "run-other")[0]; if (s.length === 1) h.assert(!s[0].parentSpanContext || s[0].parentSpanContext.spanId !== other.spanContext().spanId, "never attached to an unrelated run");
      },
    },
    {
      name: "agents", bounds: "agent run (root or nested) with 0..2 actions, tool runs between them, agent end or not, then chain end or error", quick: {},
      run: async (h) => {
        const x = setup(h), { o, cb } = x; const nest = h.flag("nest"); if (nest) await call(h, cb.handleChainStart(SER("C"), { q: 1 }, "top", undefined, [], {}, undefined, "top")); const p = nest ? "top" : undefined; await call(h, cb.handleChainStart(SER("A"), { q: 1 }, "ag", p, [], {}, undefined, "agent")); const n = h.choice("n", 3); const act = letters(h, "act"); for (let i = 0; i < n; i++) { await call(h, cb.handleAgentAction({ tool: "act" + i, toolInput: act, log: "" }, "ag", p)); await call(h, cb.handleToolStart(SER("T"), "i", "t" + i, "ag", [], {}, "tool" + i)); await call(h, cb.handleToolEnd("o", "t" + i, "ag")); } if (h.flag("end")) await call(h, cb.handleAgentEnd({ returnValues: { output: "fin" }, log: "" }, "ag", p)); h.assert(byName(o, "agent").length === 0, "the agent is open until its chain ends"); const err = h.flag("err"); await call(h, err ? cb.handleChainError(new Error("e"), "ag", p) : cb.handleChainEnd({ output: "done" }, "ag", p)); if (nest) await call(h, cb.handleChainEnd({ output: "d" }, "top")); await h.tick();
        const ag = byName(o, "agent"); h.assert(ag.length === 1, "the agent's observation is ended once"); if (ag.length !== 1) return; const a = ag[0].attributes; h.assert(err ? a[O + "level"] === "ERROR" : a[O + "output"] === "done", "with its result"); for (let i = 0; i < n; i++) { const t = byName(o, "tool" + i), c = byName(o, "act" + i); h.assert(t.length === 1 && t[0].parentSpanContext.spanId === ag[0].spanContext().spanId, "tools belong to the agent"); h.assert(c.length === 1 && !!c[0].parentSpanContext && c[0].parentSpanContext.spanId === ag[0].spanContext().spanId, "every action is recorded and ended once"); } h.assert(o.exported.length === 1 + 2 * n + (nest ? 1 : 0), "nothing else"); h.assert(h.eq(remembered(cb, ["ag", "t0", "t1", "top"]), []), "no state is left");
      },
    },
  ],
};
