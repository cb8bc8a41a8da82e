"use strict";
const O = "langfuse.observation.";
const sdk = (act) => { class OpenAI { constructor() { this.chat = { completions: { create: act } }; } } return new OpenAI(); };
async function* iter(list) { for (const c of list) yield c; }
// runs one call through the wrapper and returns the attributes of its generation
async function record(h, result, request) {
  const L = h.require("./lib.js"); const o = L.otel(h, {}); const { observeOpenAI } = h.require("@langfuse/openai"); const stream = Array.isArray(result);
  const w = observeOpenAI(sdk(() => Promise.resolve(stream ? iter(result) : result))); const r = await h.settle(w.chat.completions.create(request || { model: "g", messages: [] })); h.assert(r.status === "fulfilled", "the call succeeds"); if (r.status !== "fulfilled") return {};
  if (stream) { const got = []; let err; try { for await (const c of r.value) got.push(c); } catch (e) { err = e; } h.assert(err === undefined && got.length === result.length, "the stream is read to the end"); }
  await h.tick(); h.assert(o.exported.length === 1, "one generation"); return o.exported.length ? o.exported[0].attributes : {};
}
const parsed = (v) => (v === undefined ? undefined : JSON.parse(v));
const ch = (delta, more) => Object.assign({ choices: [Object.assign({ index: 0, delta }, more || {})] });
const letters = (h, n, max) => h.string(n, { max: max || 1, ranges: [[97, 122]] });
module.exports = {
  assumptions: ["usage is an object, null or missing and its entries are non-negative integers; listed details never exceed the total they are part of", "the first choice of a response is the one recorded", "response-API results that carry a text are recorded as that text, others as their output items"],
  harnesses: [
    {
      name: "usage", bounds: "chat and response-API usage with totals and up to three details per side, all symbolic integers up to 10^6; details missing, null or empty; in a result, the last stream chunk, or a streamed response event", quick: { cases: [0, 1].flatMap((fmt) => ["result", "chunk", "event"].map((where) => ({ fmt, where }))) },
      run: async (h) => {
        const resp = h.params.fmt === 1; const p = h.int("p", 0, 1000000), c = h.int("c", 0, 1000000), t = h.int("t", 0, 2000000); const side = (n, total, keys) => { const k = h.choice(n, 6); if (k === 0) return [undefined, {}]; if (k === 1) return [null, {}]; if (k === 2) return [{}, {}]; const d = {}; let sum = 0; for (let i = 0; i < k - 2; i++) { d[keys[i]] = h.int(n + i, 0, 1000000); sum = sum + d[keys[i]]; } h.assume(sum <= total); return [d, d]; };
        const [pd, pl] = side("pd", p, ["cached_tokens", "audio_tokens", "x"]), [cd, cl] = side("cd", c, ["reasoning_tokens", "accepted_prediction_tokens", "cached_tokens"]);
        const usage = resp ? { input_tokens: p, output_tokens: c, total_tokens: t } : { prompt_tokens: p, completion_tokens: c, total_tokens: t }; if (pd !== undefined) usage[resp ? "input_tokens_details" : "prompt_tokens_details"] = pd; if (cd !== undefined) usage[resp ? "output_tokens_details" : "completion_tokens_details"] = cd;
        const w = h.params.where; const at = await record(h, w === "result" ? { choices: [{ message: { content: "x" } }], usage } : w === "chunk" ? [Object.assign(ch({ content: "x" }), { usage: h.flag("early") ? (resp ? { input_tokens: 1, output_tokens: 1, total_tokens: 2 } : { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 }) : null }), { choices: [], usage }] : [{ type: "response.created", response: { output: [], usage: h.flag("early") ? { input_tokens: 1, output_tokens: 1, total_tokens: 2 } : null } }, { type: "response.completed", response: { output_text: "x", output: [1], usage } }]); if (!at[O + "type"]) return;
        const u = parsed(at[O + "usage_details"]); h.assert(!!u, "recorded"); if (!u) return; let inSum = u.input, outSum = u.output; for (const [k, v] of Object.entries(pl)) { h.assert(h.eq(u["input_" + k], v), "input detail"); inSum = inSum + v; } for (const [k, v] of Object.entries(cl)) { h.assert(h.eq(u["output_" + k], v), "output detail"); outSum = outSum + v; }
        h.assert(h.eq(inSum, p), "input and its details add up to the reported prompt tokens"); h.assert(h.eq(outSum, c), "output and its details add up to the reported completion tokens"); h.assert(h.eq(u.total, t), "total"); h.assert(h.and(u.input >= 0, u.output >= 0), "never negative"); h.assert(Object.keys(u).length === 3 + Object.keys(pl).length + Object.keys(cl).length, "nothing else");
      },
    },
    {
      name: "usage details of any name", bounds: "one to four details per side under 9 names providers use and a symbolic name of 1..2 units, symbolic counts; one side or both; chat and response-API format", quick: { cases: [{ fmt: 0 }, { fmt: 1 }] },
      run: async (h) => {
        const resp = h.params.fmt === 1; const key = h.string("key", { min: 1, max: 2, ranges: [[97, 122]] }); const names = ["cached_tokens", "cache_write_tokens", "audio_tokens", "text_tokens", "image_tokens", "video_tokens", "rejected_prediction_tokens", "reasoning_tokens", "accepted_prediction_tokens", key]; const at0 = h.choice("from", names.length), n = 1 + h.choice("n", 4), sides = h.choice("sides", 3); let sum = 0; const d = {}, list = []; for (let i = 0; i < n; i++) { const k = names[(at0 + i) % names.length]; const v = h.int("v" + i, 0, 1000); d[k] = v; list.push([k, v]); sum = sum + v; } const rest = h.int("rest", 0, 1000), other = h.int("other", 0, 1000);
        const inp = sides !== 1, out = sides !== 0; const p = inp ? sum + rest : other, c = out ? sum + rest : other; const usage = resp ? { input_tokens: p, output_tokens: c, total_tokens: p + c } : { prompt_tokens: p, completion_tokens: c, total_tokens: p + c }; if (inp) usage[resp ? "input_tokens_details" : "prompt_tokens_details"] = d; if (out) usage[resp ? "output_tokens_details" : "completion_tokens_details"] = d;
        const at = await record(h, { choices: [{ message: { content: "x" } }], usage }); const u = parsed(at[O + "usage_details"]); h.assert(!!u, "recorded"); if (!u) return; h.assert(h.and(h.eq(u.input, inp ? rest : other), h.eq(u.output, out ? rest : other), h.eq(u.total, p + c)), "every token is counted once"); for (const [k, v] of list) { if (inp) h.assert(h.eq(u["input_" + k], v), "input detail"); if (out) h.assert(h.eq(u["output_" + k], v), "output detail"); } h.assert(Object.keys(u).length === 3 + (inp ? n : 0) + (out ? n : 0), "nothing else");
      },
    },
    {
      name: "malformed results", bounds: "21 shapes of results and stream chunks with missing, null, empty or foreign parts: the call and the stream still succeed and no usage is invented", quick: { cases: [{ s: 0 }, { s: 1 }] },
      run: async (h) => {
        const odd = h.pick("odd", [null, undefined, 5, "text", {}, [], { choices: [] }, { choices: [null] }, { choices: [{}] }, { choices: {} }, { choices: [{ message: null }] }, { choices: [{ delta: null }] }, { choices: [{ delta: {} }] }, { choices: [{ delta: { tool_calls: [] } }] }, { choices: [{ delta: { tool_calls: [null] } }] }, { choices: [{ delta: { tool_calls: [{}] } }] }, { usage: null }, { usage: {}, choices: [{ text: "t" }] }, { response: null }, { response: { output: null } }, { output: [], output_text: "" }, { usage: { prompt_tokens: 1 }, choices: [{ text: null }] }]); h.assume(!(h.params.s === 0 && Array.isArray(odd)));
        const at = await record(h, h.params.s === 0 ? odd : h.flag("after") ? [ch({ content: "ok" }), odd] : [odd, ch({ content: "ok" })]); h.assert(at[O + "level"] === undefined, "no error is recorded"); if (h.params.s === 0) h.assert(at[O + "usage_details"] === undefined, "no usage is invented");
      },
    },
    {
      name: "streamed text", bounds: "chat or completion stream of up to 3 chunks, each with a symbolic text of up to 2 units, empty, null or without choices, and possibly another choice's text in between", quick: { cases: [{ chat: 0 }, { chat: 1 }] },
      run: async (h) => {
        const n = 1 + h.choice("n", 3); const list = []; let text = ""; for (let i = 0; i < n; i++) { const k = h.choice("k" + i, n === 3 ? 3 : 4); if (k === 0) { const t = h.string("t" + i, { max: 2 }); text = text + t; list.push(h.params.chat ? ch({ content: t }) : { choices: [{ index: 0, text: t }] }); } else if (k === 1) list.push(h.params.chat ? ch({ content: null }) : { choices: [{ index: 0, text: null }] }); else if (k === 2) list.push(h.params.chat ? ch({ content: "OTHER" }, { index: 1 }) : { choices: [{ index: 1, text: "OTHER" }] }); else list.push({ choices: [] }); }
        const at = await record(h, list); h.assert(h.eq(at[O + "output"], text), "text of the first choice, in order"); h.assert(at[O + "completion_start_time"] !== undefined, "first token time");
      },
    },
    {
      name: "streamed tool calls", bounds: "up to 2 parallel tool calls in 2..3 chunks: each chunk carries a symbolic piece of arguments of either call or of both, names first, with or without text", quick: { cases: [2, 3].flatMap((n) => [0, 1, 2, 3].map((w) => ({ n, w }))) },
      run: async (h) => {
        const calls = [{ name: "", args: "" }, { name: "", args: "" }], used = []; const list = []; let text = ""; const n = h.params.n; const piece = (i, k) => { const first = !used.includes(k); const a = h.string("a" + i + k, { min: i === 1 ? 0 : 1, max: n === 2 && i === 0 && k === 0 ? 2 : 1, ranges: i === 1 ? [[97, 122]] : [[32, 33], [35, 91], [93, 125]] }); if (first) { used.push(k); calls[k].name = "fn" + k; } calls[k].args = calls[k].args + a; return Object.assign({ index: k }, first ? { id: "c" + k, type: "function", function: { name: "fn" + k, arguments: a } } : { function: { arguments: a } }); };
        for (let i = 0; i < n; i++) { const w = i === 0 ? h.params.w : h.choice("w" + i, 4); const withText = i < 2 ? h.flag("text" + i) : false; const delta = {}; if (withText) { const t = letters(h, "x" + i); delta.content = t; text = text + t; } if (w === 0) delta.tool_calls = [piece(i, 0)]; else if (w === 1) { h.assume(used.includes(0)); delta.tool_calls = [piece(i, 1)]; } else if (w === 2) delta.tool_calls = [piece(i, 0), piece(i, 1)]; list.push(ch(delta)); }
        h.assume(used.length > 0); const at = await record(h, list); const out = parsed(at[O + "output"]); h.assert(!!out && Array.isArray(out.tool_calls) && out.tool_calls.length === used.length, "one entry per tool call"); if (!out || !out.tool_calls || out.tool_calls.length !== used.length) return; used.forEach((k, i) => { h.assert(h.and(h.eq(out.tool_calls[i].function.name, calls[k].name), h.eq(out.tool_calls[i].function.arguments, calls[k].args)), "its own name and arguments in order"); }); if (h.concrete(text.length > 0)) h.assert(h.eq(out.content, text), "the text next to them");
      },
    },
    {
      name: "many tool calls and choices", bounds: "1, 2 or 12 streamed parallel tool calls, pieces interleaved, names given once or repeated in every piece (as some providers do), last piece with its finish reason; text of up to 12 chunks whose last one carries text and finish reason; results of up to 3 choices with any finish reasons", quick: { cases: ["tools", "text", "choices"].map((mode) => ({ mode })) },
      run: async (h) => {
        const x = h.string("x", { max: 1, ranges: [[97, 122]] }); const mode = h.params.mode;
        if (mode === "tools") { const n = h.pick("n", [1, 2, 12]), repeat = h.flag("repeat"), back = h.flag("back"); const order = Array.from({ length: n }, (_, i) => i); const list = order.map((k) => ch({ tool_calls: [{ index: k, id: "c" + k, type: "function", function: { name: "fn" + k, arguments: "a" + k } }] })); for (const k of back ? order.slice().reverse() : order) list.push(ch({ tool_calls: [{ index: k, function: Object.assign(repeat ? { name: "fn" + k } : {}, { arguments: "b" + x }) }] }, k === (back ? 0 : n - 1) ? { finish_reason: "tool_calls" } : {})); const at = await record(h, list); const out = parsed(at[O + "output"]); h.assert(!!out && Array.isArray(out.tool_calls) && h.eq(out.tool_calls.map((t) => [t.function.name, t.function.arguments]), order.map((k) => ["fn" + k, "a" + k + "b" + x])), "one entry per tool call, in order, with its own name and arguments"); return; }
        if (mode === "text") { const n = h.pick("n", [1, 2, 12]), chat = h.flag("chat"), fin = h.pick("fin", ["stop", "length"]); const list = []; let text = ""; for (let i = 0; i < n; i++) { const t = i === n - 1 ? "z" + x : "w" + i; text += t; list.push(chat ? ch({ content: t }, i === n - 1 ? { finish_reason: fin } : { finish_reason: null }) : { choices: [{ index: 0, text: t, finish_reason: i === n - 1 ? fin : null }] }); } const at = await record(h, list); h.assert(h.eq(at[O + "output"], text), "all of the text"); return; }
        const n = 1 + h.choice("n", 3); const choices = Array.from({ length: n }, (_, i) => ({ index: i, finish_reason: h.pick("f" + i, ["stop", "length", null]), message: { role: "assistant", content: "m" + i + x } })); const at = await record(h, { choices }); h.assert(h.eq(parsed(at[O + "output"]), choices[0].message), "the first choice's message");
      },
    },
    {
      name: "streamed responses", bounds: "response-API stream of 1..3 events that carry a response (its text, up to 2 output items, model and status of the moment, symbolic), with other events in between", quick: { cases: [1, 2, 3].map((n) => ({ n })) },
      run: async (h) => {
        const n = h.params.n; const list = []; let last; for (let i = 0; i < n; i++) { const k = h.choice("k" + i, 4); const t = letters(h, "t" + i); const items = [{ type: "reasoning", summary: [t] }, { type: "message", content: [{ text: t }] }]; const r = [() => ({ output: [] }), () => ({ output_text: "x" + t, output: items }), () => ({ output: items.slice(0, 1), output_text: "" }), () => ({ output: items })][k](); r.model = "m" + i; r.status = i < n - 1 ? "in_progress" : "completed"; r.temperature = h.int("temp" + i, 0, 2); last = [k, r]; list.push({ type: "response.x", response: r }); if (i === 0 && h.flag("delta")) list.push({ type: "response.output_text.delta", delta: "zz" }); }
        const [k, r] = last; const at = await record(h, list); const got = at[O + "output"]; if (k === 0) h.assert(got === undefined || got === "" || got === "null" || got === "[]", "nothing invented"); else if (k === 1) h.assert(h.eq(got, r.output_text), "the final text"); else h.assert(got !== undefined && h.eq(parsed(got), r.output.length === 1 ? r.output[0] : r.output), "the final output items"); h.assert(at[O + "model.name"] === "m" + (n - 1), "model"); h.assert(at[O + "metadata.status"] === "completed", "status"); const mp = parsed(at[O + "model.parameters"]); h.assert(!!mp && h.eq(mp.temperature, r.temperature), "parameters");
      },
    },
    {
      name: "single results", bounds: "chat message with symbolic content, refusal or tool calls; completion text; response-API text and output lists of 0..2 items", quick: {},
      run: async (h) => {
        const s = h.string("s", { max: 2, ranges: [[32, 33], [97, 122]] }); const msg = h.pick("msg", [{ role: "assistant", content: s }, { role: "assistant", content: null, tool_calls: [{ id: "1", function: { name: "f", arguments: "{}" } }] }, { role: "assistant", refusal: s }]); const k = h.choice("k", 5); const kinds = [{ type: "message", content: [{ text: s }] }, { type: "function_call", name: "f" }, { type: "reasoning", summary: [] }]; const i0 = h.choice("i0", 3); const items = [kinds[i0], kinds[(i0 + 1) % 3]].slice(0, h.choice("items", 3));
        const res = [() => ({ choices: [{ message: msg }, { message: { content: "second" } }] }), () => ({ choices: [{ text: s, index: 0, logprobs: null }, { text: "second" }] }), () => ({ output_text: s, output: items }), () => ({ output: items }), () => ({ object: "list", data: [] })][k](); const at = await record(h, res); const got = at[O + "output"];
        const list = () => h.assert(h.eq(parsed(got), items.length === 0 ? undefined : items.length === 1 ? items[0] : items), "output items");
        if (k === 0) h.assert(h.eq(parsed(got), msg), "the first message"); else if (k === 1) h.assert(h.eq(got, s), "its text"); else if (k === 2) { if (h.concrete(s.length > 0)) h.assert(h.eq(got, s), "its text"); else list(); } else if (k === 3) list(); else h.assert(got === undefined || got === "", "nothing invented");
      },
    },
    {
      name: "request and model data", bounds: "request with messages, prompt or input, tools and parameters present or not (symbolic temperature, tokens); response model and parameters present or not", quick: {},
      run: async (h) => {
        const q = { model: letters(h, "model", 2) }; const form = h.choice("form", 3); const temp = h.int("temp", 0, 2), mx = h.int("mx", 0, 4096); const extra = h.flag("extra"); if (extra) { q.temperature = temp; q.max_tokens = mx; } const txt = letters(h, "txt", 2); let input; if (form === 0) { q.messages = [{ role: "user", content: txt }]; input = { messages: q.messages }; if (h.flag("tools")) { q.tools = [{ f: 1 }]; q.tool_choice = "auto"; input.tools = q.tools; input.tool_choice = "auto"; } if (h.flag("fns")) { q.functions = [{ g: 1 }]; q.function_call = "none"; input.functions = q.functions; input.function_call = "none"; } } else if (form === 1) { q.prompt = txt; input = txt; } else { q.input = txt; input = txt; if (h.concrete(txt.length === 0)) input = undefined; }
        const rm = h.flag("rm") ? letters(h, "rmodel", 2) : undefined; const res = { choices: [{ message: { content: "a" } }] }; if (rm !== undefined) { res.model = rm; res.temperature = h.int("rt", 0, 2); res.status = "completed"; res.error = null; } const at = await record(h, res, h.freeze(q)); const got = at[O + "input"]; h.assert(typeof input === "object" ? h.eq(parsed(got), input) : input === undefined ? got === undefined || h.eq(got, "") : h.eq(got, input), "the request as sent"); h.assert(h.eq(at[O + "model.name"], rm !== undefined ? rm : q.model), "the model of the response, else of the request"); const mp = parsed(at[O + "model.parameters"]) || {}; if (rm !== undefined) h.assert(h.eq(mp.temperature, res.temperature) && at[O + "metadata.status"] === "completed" && at[O + "metadata.error"] === undefined, "response parameters"); else if (extra) h.assert(h.and(h.eq(mp.temperature, temp), h.eq(mp.max_tokens, mx)), "request parameters"); else h.assert(mp.temperature === undefined && mp.max_tokens === undefined, "no invented parameters");
      },
    },
  ],
};
