"use strict";
// LangChain's f-string rules: "{{" and "}}" are literal braces, "{name}" a variable, anything else with a brace an error
function format(h, text, vars) {
  let out = "", i = 0; const n = text.length;
  while (i < n) {
    const c = text[i];
    if (h.known(c === "{")) { if (i + 1 < n && h.known(text[i + 1] === "{")) { out = out + "{"; i += 2; continue; } let j = i + 1; while (j < n && !h.known(text[j] === "}")) j++; if (j >= n) throw new Error("unclosed"); const name = text.slice(i + 1, j); if (!Object.prototype.hasOwnProperty.call(vars, name)) throw new Error("missing variable " + name); out = out + vars[name]; i = j + 1; continue; }
    if (h.known(c === "}")) { if (i + 1 < n && h.known(text[i + 1] === "}")) { out = out + "}"; i += 2; continue; } throw new Error("single }"); }
    out = out + c; i++;
  }
  return out;
}
const WS = ["", " ", "\n  "];
// each generator returns { src, out }: template text and what formatting it must give
function gen(h, P) {
  let k = 0; const id = (s) => s + k++; const vals = { x: h.string("x", { max: 2 }), y_1: "{{x}}" };
  const variable = () => { const n = h.pick(id("n"), ["x", "y_1"]); const sp = P.spaced ? h.pick(id("sp"), ["", " ", "  \n\t"].slice(0, P.spaced)) : ""; return { src: "{{" + sp + n + sp + "}}", out: vals[n] }; };
  const text = () => { const t = h.string(id("t"), { max: P.text, chars: "a \n\"'$:,\\" }); return { src: t, out: t }; };
  const O = P.doubled ? "{{" : "{", C = P.doubled ? "}}" : "}"; const q = P.quote || "\"";
  const json = (d) => {
    const ws = WS[h.choice(id("w"), P.ws || 3)], ws2 = WS[h.choice(id("w"), P.ws || 3)]; const members = h.choice(id("m"), 2 + (d === 0 ? P.width : 0));
    if (!members) return { src: O + ws + C, out: "{" + ws + "}" };
    const ms = []; for (let i = 0; i < members; i++) { const v = value(d + 1); ms.push({ src: q + "k" + i + q + ":" + v.src, out: q + "k" + i + q + ":" + v.out }); }
    return { src: O + ws + ms.map((m) => m.src).reduce((a, b) => a + "," + b) + ws2 + C, out: "{" + ws + ms.map((m) => m.out).reduce((a, b) => a + "," + b) + ws2 + "}" };
  };
  const value = (d) => { const kinds = d < P.depth ? 5 : 3; const c = h.choice(id("v"), kinds); if (c === 0) return { src: "1", out: "1" }; if (c === 1) return variable(); if (c === 2) { const v = variable(); return { src: q + v.src + "s" + q, out: q + v.out + "s" + q }; } const j = json(d); return c === 3 ? j : { src: "[" + j.src + "]", out: "[" + j.out + "]" }; };
  const seq = (l) => ({ src: l.map((x) => x.src).reduce((a, b) => a + b, ""), out: l.map((x) => x.out).reduce((a, b) => a + b, "") });
  return { vals, variable, text, json, seq };
}
const clients = (h) => h.require("@langfuse/client");
const base = { name: "n", version: 1, labels: [], tags: [], config: {} };
const check = (h, src, want, vals) => { const { TextPromptClient } = clients(h); const c = new TextPromptClient(Object.assign({ type: "text", prompt: src }, base)); const conv = c.getLangchainPrompt(); h.observe("converted", conv); const r = h.attempt(() => format(h, conv, vals)); h.assert(r.status === "fulfilled", "LangChain accepts the converted prompt"); if (r.status === "fulfilled") h.assert(h.eq(r.value, want), "formatting gives the original meaning"); h.assert(h.eq(c.prompt, src), "the stored prompt is unchanged"); };
module.exports = {
  assumptions: ["LangChain's template rules are those of its f-string templates, re-stated in the harness", "texts outside variables and JSON contain no braces, and JSON strings contain no braces other than variables"],
  harnesses: [
    {
      name: "JSON objects", bounds: "a JSON object nested up to 2 (quick) / 3 levels with up to 2 members at the top and 1 below, objects in lists, empty objects, variables as values and inside strings; spacing none, one space, or a line break after '{' and before '}'; one symbolic variable value",
      quick: { cases: [{ depth: 2, width: 0, ws: 2 }, { depth: 1, width: 1, ws: 3 }, { depth: 2, width: 0, ws: 1, quote: "'" }, { depth: 2, width: 0, ws: 1, spaced: 2 }, { depth: 2, width: 0, ws: 2, doubled: true }] },
      thorough: { cases: [{ depth: 3, width: 0, ws: 2 }, { depth: 2, width: 1, ws: 1 }, { depth: 2, width: 0, ws: 3, quote: "'" }, { depth: 2, width: 0, ws: 2, spaced: 3 }, { depth: 2, width: 0, ws: 3, doubled: true }], timeS: 800 },
      run: async (h) => { const g = gen(h, Object.assign({ text: 1 }, h.params)); const j = g.json(0); check(h, "see " + j.src + "!", "see " + j.out + "!", g.vals); },
    },
    {
      name: "text around variables and JSON", bounds: "text, variable, text (each up to 2 symbolic units over letters, quotes, spaces, line breaks, $ : , \\), then a small JSON object directly after a variable, a text or a JSON object, and text again",
      quick: {},
      run: async (h) => { const g = gen(h, { text: 2, depth: 1, width: 0, ws: 1, spaced: 3 }); const parts = [g.text(), g.variable()]; const c = h.choice("c", 3); if (c === 1) parts.push(g.text()); if (c === 2) parts.push({ src: "{\"a\":{}}", out: "{\"a\":{}}" }); parts.push({ src: "{\"a\":{\"b\":1}}", out: "{\"a\":{\"b\":1}}" }, { src: "{{x}}", out: g.vals.x }, g.text()); const s = g.seq(parts); check(h, s.src, s.out, g.vals); },
    },
    {
      name: "single-brace variables", bounds: "a LangChain variable {x} in text, in a JSON value and in doubled JSON, with symbolic text and value",
      quick: {},
      run: async (h) => { const x = h.string("x", { max: 2 }), t = h.string("t", { max: 1, chars: "a \n\"$" }); const c = h.pick("c", [["{x}", "X"], ["{\"a\":{x}}", "{\"a\":X}"], ["{{\"a\":{x}}}", "{\"a\":X}"], ["{{\n\"a\": {x}, \"b\":{{x}} }}", "{\n\"a\": X, \"b\":X }"]]); const want = c[1].split("X").reduce((a, b) => a + x + b); check(h, t + c[0] + t, t + want + t, { x }); },
    },
    {
      name: "chat prompts", bounds: "4 entries: message, placeholder, message, placeholder, in either order; placeholder values missing, empty, one or two messages, non-text content, or another shape; symbolic role and variable value of up to 2 units",
      quick: {},
      run: async (h) => {
        const { ChatPromptClient } = clients(h); const x = h.string("x", { max: 2 }), role = h.string("role", { max: 1 });
        const msgs = [{ type: "chatmessage", role, content: "a{{x}}{\"b\":{\"c\":1}}" }, { type: "placeholder", name: "p" }, { role: "user", content: "{{ x }}" }, { type: "placeholder", name: h.pick("second", ["p", "constructor", " p "]) }]; if (h.flag("swap")) msgs.reverse();
        const shapes = [undefined, { v: [], out: [] }, { v: [{ role: "assistant", content: "m{{x}}" }], out: [["assistant", "m" + x]] }, { v: [{ role: "assistant", content: "1" }, { role, content: "{\"a\":{}}{{x}}" }], out: [["assistant", "1"], [role, "{\"a\":{}}" + x]] }, { v: [{ role: "user", content: [{ type: "text", text: "t" }] }], out: [["user", [{ type: "text", text: "t" }]]] }, { v: "text" }, { v: [null] }, { v: { a: 1 } }, { v: null }];
        const vals = {}, outs = {}; for (const k of new Set(msgs.filter((m) => m.type === "placeholder").map((m) => m.name))) { const s = h.pick("s" + k, shapes); if (s) { vals[k] = s.v; outs[k] = s.out || [JSON.stringify(s.v)]; } }
        const want = []; for (const m of msgs) { if (m.type === "placeholder") { if (Object.prototype.hasOwnProperty.call(outs, m.name)) want.push(...outs[m.name]); else want.push(["placeholder", "{" + m.name + "}"]); } else want.push(m.role === "user" ? ["user", x] : [role, "a" + x + "{\"b\":{\"c\":1}}"]); }
        const before = h.clone(msgs); h.freeze(msgs); h.freeze(vals); const c = new ChatPromptClient(Object.assign({ type: "chat", prompt: msgs }, base)); const r = h.attempt(() => c.getLangchainPrompt({ placeholders: vals })); h.assert(r.status === "fulfilled", "does not throw"); if (r.status !== "fulfilled") return;
        h.assert(r.value.length === want.length, "one entry each"); if (r.value.length !== want.length) return;
        r.value.forEach((e, i) => { const w = want[i]; if (typeof w === "string" || w[0] === "placeholder") h.assert(h.eq(e, w), "placeholder or JSON text"); else { h.assert(h.eq(e.role, w[0]), "role"); const f = typeof w[1] === "object" ? { status: "fulfilled", value: e.content } : h.attempt(() => format(h, e.content, { x })); h.assert(f.status === "fulfilled" && h.eq(f.value, w[1]), "content"); } });
        h.assert(h.eq(msgs, before), "the stored prompt is unchanged");
      },
    },
  ],
};
