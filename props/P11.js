"use strict";
const NAMES = ["a", "b", "constructor"];
// text without anything that opens a tag: no "{{", no "{" at either end
const plain = (h, name, o) => { const t = h.string(name, o); h.assume(h.and(h.not(t.includes("{{")), h.not(t.endsWith("{")))); return t; };
const VALUES = ["{{b}}", "$&$1$$", "<b> & \"q\" 'x'", "\\n{", "", "}}"];
function value(h, name, o) { const k = h.choice(name + "k", VALUES.length + 1); return k < VALUES.length ? VALUES[k] : h.string(name, o); }
function template(h, n, o) {
  let text = ""; const parts = [];
  for (let i = 0; i < n; i++) {
    if (h.flag("tag" + i)) { const nm = h.pick("var" + i, o.names || NAMES); text += h.pick("form" + i, o.forms || [(x) => "{{" + x + "}}", (x) => "{{ " + x + " }}"])(nm); parts.push({ v: nm }); }
    else { const t = plain(h, "t" + i, o.text); text += t; parts.push({ t }); }
  }
  // two plain pieces next to each other must not open a tag either
  for (let i = 1; i < n; i++) if (parts[i].t !== undefined && parts[i - 1].t !== undefined) h.assume(h.not((parts[i - 1].t + parts[i].t).includes("{{")));
  return { text, expect: (vars) => parts.map((p) => (p.t !== undefined ? p.t : Object.prototype.hasOwnProperty.call(vars, p.v) ? vars[p.v] : "")).reduce((x, y) => x + y, "") };
}
const client = (h, type, prompt) => { const { TextPromptClient, ChatPromptClient } = h.require("@langfuse/client"); const d = { name: "n", version: 1, type, prompt, labels: [], tags: [], config: {} }; return type === "chat" ? new ChatPromptClient(d) : new TextPromptClient(d); };
const TEXT = { max: 2, chars: "{}$\\\n&" };
module.exports = {
  assumptions: ["templates use plain text and double-brace variables; mustache's other tags (sections, partials, comments, delimiters) are outside the property", "variables are strings in plain objects"],
  harnesses: [
    {
      name: "text prompts", bounds: "templates of 2 (quick) / 3 pieces, each a text of up to 2 units over {} $ \\ & newline, or a variable out of a, b, constructor (with and without inner spaces); values out of 6 awkward literals or any text of up to 2 units; each variable supplied or not",
      quick: { cases: [{ n: 2, s: 0 }, { n: 2, s: 1 }, { n: 1, s: 0, any: true }] }, thorough: { cases: [{ n: 3, s: 0 }, { n: 3, s: 1 }, { n: 2, s: 0, any: true }, { n: 2, s: 2 }], timeS: 800 },
      run: async (h) => {
        const P = h.params; const t = template(h, P.n, { text: P.any ? { max: 2 } : TEXT }); const vars = {};
        const names = P.s === 0 ? ["a"] : P.s === 1 ? ["constructor"] : ["a", "b"];
        for (const n of names) if (h.flag("has" + n)) vars[n] = value(h, "v" + n, { max: 2 });
        const c = client(h, "text", t.text); const out = c.compile(vars); h.observe("out", out);
        h.assert(h.eq(out, t.expect(vars)), "variables replaced verbatim, everything else kept");
        h.assert(h.eq(c.prompt, t.text), "the stored prompt is unchanged"); h.assert(h.eq(c.compile(vars), out), "compiling again gives the same");
        h.assert(h.eq(c.compile(), t.expect({})), "without variables");
      },
    },
    {
      name: "chat messages", bounds: "2 (quick) / 3 messages, each of a symbolic role (up to 1 unit) and a content of one text (up to 2 units) and one variable, with or without type; any value of up to 2 units",
      quick: { params: { n: 2 } }, thorough: { params: { n: 3 }, timeS: 600 },
      run: async (h) => {
        const msgs = [], want = [], v = value(h, "v", { max: 2 }), has = h.flag("has"); const vars = has ? { a: v } : {};
        for (let i = 0; i < h.params.n; i++) { const t = plain(h, "t" + i, { max: h.params.n === 2 ? i + 1 : 2, chars: "{}$\n" }), role = h.string("r" + i, { max: 1 }); const m = { role, content: t + "{{a}}" }; if (h.flag("typed" + i)) m.type = "chatmessage"; msgs.push(m); want.push({ role, content: t + (has ? v : "") }); }
        const before = h.clone(msgs); h.freeze(msgs); const c = client(h, "chat", msgs); const out = c.compile(vars); h.assert(h.eq(out, want), "every message in order, role and compiled content");
        h.assert(h.eq(msgs, before), "the stored prompt is unchanged"); h.assert(h.eq(c.compile(vars), out), "compiling again gives the same");
      },
    },
    {
      name: "placeholders", bounds: "4 entries: message, placeholder p, message, placeholder p or q (in 2 orders); the value of each missing or out of: empty list, one or two messages (with extra fields, a variable, non-string content), lists with a null, a text or an incomplete message, text, number, boolean, null, object; variable value of up to 2 units, contents with symbolic texts of 1 (2 thorough) unit",
      quick: { cases: ["p", "q", "constructor"].map((second) => ({ second })) }, thorough: { cases: ["p", "q", "constructor"].map((second) => ({ second, deep: true })), timeS: 800 }, mustReach: ["list", "empty", "missing", "other"],
      run: async (h) => {
        const v = h.string("v", { max: 2 }); const vars = { a: v }; const t = plain(h, "t", { max: h.params.deep ? 2 : 1, chars: "{}$x" });
        const name = h.params.second; const msgs = [{ type: "chatmessage", role: "system", content: "s{{a}}" }, { type: "placeholder", name: "p" }, { role: "user", content: t + "{{a}}" }, { type: "placeholder", name }];
        if (h.flag("swap")) msgs.reverse();
        const mk = (k) => { const s = h.params.second !== "p" ? "$" : plain(h, "m" + k, { max: 1, chars: "{}$x" }); return h.pick("shape" + k, [
          { v: [], out: [] }, { v: [{ role: "user", content: s + "{{a}}" }], out: [{ role: "user", content: s + v }] },
          { v: [{ role: "assistant", content: "c" + s, tool: { x: 1 } }, { role: "tool", content: "{{a}}{{b}}", id: "i" }], out: [{ role: "assistant", content: "c" + s, tool: { x: 1 } }, { role: "tool", content: v, id: "i" }] },
          { v: [{ role: "user", content: [{ type: "text", text: "{{a}}" }] }], out: [{ role: "user", content: [{ type: "text", text: "{{a}}" }] }] },
          { v: [{ role: "user", content: "x" }, null] }, { v: ["{{a}}" + s] }, { v: [{ role: "user" }] }, { v: [{ content: "x" }] }, { v: "{{a}}" + s }, { v: 7 }, { v: false }, { v: null }, { v: { role: "user", content: "{{a}}" } }]); };
        const vals = {}, outs = {};
        for (const k of new Set(["p", name])) if (h.flag("has" + k)) { const c = mk(k); vals[k] = c.v; outs[k] = c.out !== undefined ? c.out : [JSON.stringify(c.v)]; h.reach(c.out === undefined ? "other" : c.out.length ? "list" : "empty"); } else h.reach("missing");
        const want = []; for (const m of msgs) { if (m.type === "placeholder") { const has = Object.prototype.hasOwnProperty.call(outs, m.name); if (has) for (const x of outs[m.name]) want.push(x); else want.push({ type: "placeholder", name: m.name }); } else want.push({ role: m.role, content: m.role === "system" ? "s" + v : t + v }); }
        const before = h.clone(msgs), vb = h.clone(vals); h.freeze(msgs); h.freeze(vals);
        const c = client(h, "chat", msgs); const r = h.attempt(() => c.compile(vars, vals)); h.assert(r.status === "fulfilled", "compiling does not throw"); if (r.status !== "fulfilled") return;
        h.assert(h.eq(r.value, want), "placeholders filled in place, messages in order"); h.assert(h.eq(msgs, before) && h.eq(vals, vb), "inputs unchanged"); h.assert(h.eq(c.compile(vars, vals), want), "compiling again gives the same");
      },
    },
  ],
};
