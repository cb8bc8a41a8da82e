"use strict";
const { client } = require("./lib.js");
const txt = (h, n, max) => h.string(n, { max: max || 2, bmp: true });
// the fields a caller can set next to the text, present or not, with symbolic leaves
function extras(h, n) {
  const b = {}; const k = h.choice(n, 7);
  if (k === 1) b.config = h.pick(n + "c", [{}, { model: txt(h, n + "m"), t: h.int(n + "t", -2, 2) }, null, { a: [{ b: false }] }]); if (k === 2) b.labels = h.pick(n + "l", [[], [txt(h, n + "l0")], ["production", txt(h, n + "l1")]]); if (k === 3) b.tags = h.pick(n + "g", [[], ["a", txt(h, n + "g0")]]); if (k === 4) b.commitMessage = h.pick(n + "cm", [txt(h, n + "cm0"), null, undefined]); if (k === 5) Object.assign(b, { config: 0, labels: ["x"], tags: ["y"], commitMessage: "z" });
  return b;
}
// one chat entry: what the caller writes, and what has to be sent
function entry(h, i, messages) {
  const k = messages ? [0, 1, 4][h.choice("item" + i, 3)] : h.choice("item" + i, 5); const c = i === 0 ? txt(h, "c" + i) : "{{v" + i + "}}", r = h.pick("role" + i, ["system", "developer"]); const name = txt(h, "n" + i, 1);
  if (k === 0) return { given: { role: r, content: c }, sent: { role: r, content: c, type: "chatmessage" } };
  if (k === 1) return { given: { type: "chatmessage", role: r, content: c }, sent: { type: "chatmessage", role: r, content: c } };
  if (k === 2) return { given: { type: "placeholder", name }, sent: { type: "placeholder", name } };
  if (k === 3) return { given: { type: "placeholder", name, note: 1 }, sent: { type: "placeholder", name } };
  return { given: { role: r, content: c, name }, sent: { role: r, content: c, name, type: "chatmessage" } };
}
const FIELDS = ["name", "version", "config", "labels", "tags", "commitMessage"];
// the client object and its JSON text say exactly what the server's prompt says
function stands(h, c, data, fallback) {
  h.assert(h.and(...FIELDS.map((f) => h.eq(c[f], data[f]))), "name, version, configuration, labels, tags and commit message are the server's"); h.assert(c.type === data.type && c.isFallback === !!fallback, "type and origin");
  const bare = (m) => { const x = Object.assign({}, m); if (x.type === "chatmessage") delete x.type; return x; };
  if (data.type === "text") h.assert(h.eq(c.prompt, data.prompt), "the text"); else h.assert(h.and(c.prompt.length === data.prompt.length, ...data.prompt.map((m, i) => h.eq(bare(c.prompt[i]), bare(m)))) && c.prompt.every((m) => m.type === "chatmessage" || m.type === "placeholder"), "the messages, each marked as message or placeholder");
  const want = { name: data.name, prompt: data.type === "text" ? data.prompt : data.prompt.map(bare), version: data.version, isFallback: !!fallback, tags: data.tags, labels: data.labels, type: data.type }; if (data.config !== undefined) want.config = data.config; h.assert(h.eq(JSON.parse(c.toJSON()), want), "the JSON form is the prompt without the marks of messages");
}
module.exports = {
  assumptions: ["the server answers with a well-formed prompt of the requested or another type", "JSON.parse and JSON.stringify follow the language definition"],
  harnesses: [
    {
      name: "create", bounds: "text prompts (type given or not) and chat prompts of 0..2 entries (message, marked message, message with extra field, placeholder, placeholder with extra field), symbolic names, texts and placeholder names of up to 2 units; configuration, labels, tags, commit message each absent, empty, falsy or symbolic; answer accepted, refused, or of the other type",
      quick: { cases: [{ m: "text" }, { m: "chat", n: 0 }, { m: "chat", n: 1 }, { m: "chat", n: 2 }] }, thorough: { cases: [{ m: "text" }, { m: "chat", n: 0 }, { m: "chat", n: 1 }, { m: "chat", n: 2 }, { m: "chat", n: 3 }], timeS: 800 }, mustReach: ["sent"],
      run: async (h) => {
        const P = h.params; const reqs = []; const outcome = h.choice("outcome", 3); const err = new Error("refused"); const name = txt(h, "name"); const ex = P.n === 2 || P.n === 3 ? {} : extras(h, "x");
        let body, sent; if (P.m === "text") { const t = txt(h, "t"); const ty = h.choice("ty", 2); body = Object.assign({ name, prompt: t }, ty ? { type: "text" } : {}, ex); sent = Object.assign({ name, prompt: t, type: "text" }, ex); } else { const l = []; for (let i = 0; i < P.n; i++) l.push(entry(h, i)); body = Object.assign({ name, type: "chat", prompt: l.map((e) => e.given) }, ex); sent = Object.assign({ name, type: "chat", prompt: l.map((e) => e.sent) }, ex); }
        const other = outcome === 2; const make = () => { const d = { name: "S" + h.concrete(name.length), version: h.int("ver", 0, 9), config: { s: 1 }, labels: ["latest"], tags: ["st"], commitMessage: "made" }; const chat = (P.m === "chat") !== other; return Object.assign(d, chat ? { type: "chat", prompt: [{ role: "user", content: txt(h, "sc") }, { type: "placeholder", name: "ph" }, { type: "chatmessage", role: "assistant", content: "k", extra: 1 }] } : { type: "text", prompt: txt(h, "st") }); }; const data = make();
        const { client: lf } = client(h, { prompts: { create: (b) => { reqs.push(b); return outcome === 1 ? Promise.reject(err) : Promise.resolve(data); }, get: () => Promise.reject(new Error("not asked")) } }); const before = h.clone(body);
        const st = await h.settle(lf.prompt.create(h.freeze(body))); h.assert(h.eq(body, before), "the caller's object is not changed"); h.reach("sent"); h.assert(reqs.length === 1, "one request"); h.assert(h.eq(reqs[0], sent), "everything the caller gave, messages marked, placeholders by name, and nothing else");
        if (outcome === 1) { h.assert(st.status === "rejected" && st.reason === err, "a refusal is raised as it is"); return; } h.assert(st.status === "fulfilled", "created"); if (st.status === "fulfilled") stands(h, st.value, data);
      },
    },
    {
      name: "fetched prompts", bounds: "text and chat prompts of up to 2 entries with symbolic texts and every extra field, fetched by name, version or label or given as fallback (messages only, as declared)", quick: {}, mustReach: ["fallback", "server"],
      run: async (h) => {
        const chat = h.flag("chat"), fb = h.flag("fb"); const ex = fb ? {} : extras(h, "x"); const prompt = chat ? [entry(h, 0, fb).given, { role: "user", content: "k" }].slice(0, h.choice("n", 3)) : txt(h, "t", fb ? 1 : 2); if (fb && !chat) h.assume(h.not(h.eq(prompt, "")));
        const data = Object.assign({ name: "nm", version: h.int("ver", 0, 9), type: chat ? "chat" : "text", prompt, config: {}, labels: [], tags: [] }, ex); const reqs = []; const { client: lf } = client(h, { prompts: { get: (n, r) => { reqs.push([n, r]); return fb ? Promise.reject(new Error("down")) : Promise.resolve(data); } } }); const sel = h.pick("sel", [{}, { version: 3 }, { label: "x" }]);
        const st = await h.settle(lf.prompt.get("nm", Object.assign({ type: data.type, maxRetries: 0 }, sel, fb ? { fallback: prompt } : {})), { timers: true }); h.assert(st.status === "fulfilled", "resolves"); if (st.status !== "fulfilled") return; h.reach(fb ? "fallback" : "server");
        stands(h, st.value, fb ? { name: "nm", version: sel.version === undefined ? 0 : sel.version, type: data.type, prompt, config: {}, labels: sel.label ? [sel.label] : [], tags: [], commitMessage: undefined } : data, fb);
      },
    },
    {
      name: "update and delete", bounds: "symbolic names (up to 2 units) and labels, versions -2..9, both, either or neither of version and label; accepted or refused", quick: {},
      run: async (h) => {
        const name = txt(h, "name"), ver = h.int("ver", -2, 9), ok = h.flag("ok"), err = new Error("refused"), answer = { name: "x", version: 1 }; const calls = []; const rec = (n, v) => (...a) => { calls.push([n, a]); return ok ? Promise.resolve(v) : Promise.reject(err); }; const { client: lf } = client(h, { prompts: { delete: rec("delete", undefined) }, promptVersion: { update: rec("update", answer) } }); let st, want;
        if (h.flag("upd")) { const nl = h.pick("nl", [[], [txt(h, "l0")], ["a", txt(h, "l1")]]); st = await h.settle(lf.prompt.update({ name, version: ver, newLabels: nl })); h.assert(calls.length === 1 && calls[0][0] === "update" && h.eq(calls[0][1].slice(0, 3), [name, ver, { newLabels: nl }]), "this version gets exactly these labels"); want = answer; }
        else { const k = h.choice("k", 5), lab = txt(h, "lab"); const o = [undefined, {}, { version: ver }, { label: lab }, { version: ver, label: lab }][k]; st = await h.settle(o === undefined ? lf.prompt.delete(name) : lf.prompt.delete(name, o)); const r = calls.length === 1 ? calls[0][1][1] || {} : {}; h.assert(calls.length === 1 && calls[0][0] === "delete" && h.eq(calls[0][1][0], name) && h.eq({ v: r.version, l: r.label }, { v: k === 2 || k === 4 ? ver : undefined, l: k >= 3 ? lab : undefined }), "exactly the named versions are deleted"); }
        if (ok) h.assert(st.status === "fulfilled" && st.value === want, "the server's answer"); else h.assert(st.status === "rejected" && st.reason === err, "a refusal is raised as it is");
      },
    },
  ],
};
