"use strict";
const UUID = /^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/;
const mk = (h, opts, answer) => { const { LangfuseBrowserClient, LangfuseBrowserError } = h.require("@langfuse/browser"); const calls = []; const c = new LangfuseBrowserClient(Object.assign({ publicKey: "pk-1", fetch: (url, init) => { calls.push({ url, init }); return answer(init, calls.length); } }, opts || {})); return { c, calls, Err: LangfuseBrowserError }; };
const resp = (status, text) => ({ ok: status >= 200 && status < 300, status, text: () => (text instanceof Error ? Promise.reject(text) : Promise.resolve(text)) });
const good = (init) => Promise.resolve(resp(207, JSON.stringify({ successes: [{ id: JSON.parse(init.body).batch[0].id, status: 201 }], errors: [] })));
const eventOf = (init) => JSON.parse(init.body).batch[0];
module.exports = {
  assumptions: ["`ok` and `status` of a response agree as fetch defines them"],
  harnesses: [
    {
      name: "acknowledgement", bounds: "status symbolic (200..599); body empty, invalid JSON, any of 12 other shapes, the event listed beside an error list of another shape (or the reverse), or lists of up to 2 successes (the event's id, the score's id, a symbolic id of up to 2 units, null, missing id) and up to 1 error; unreadable body; network failure (rejected or thrown)",
      quick: {}, mustReach: ["resolved", "rejected"],
      run: async (h) => {
        const status = h.int("status", 200, 599); const kind = h.choice("kind", 7); let listed = false, errs = 0, shaped = false; const odd = h.string("odd", { max: 2 });
        const m = mk(h, {}, (init) => {
          const id = eventOf(init).id; if (kind === 0) return Promise.reject(new TypeError("net")); if (kind === 1) throw new Error("sync"); if (kind === 2) return Promise.resolve(resp(status, new Error("body")));
          let text; if (kind === 3) text = h.pick("raw", ["", "{", "<html>", "null", "[]", "7", "\"x\"", "{}", "{\"successes\":[]}", "{\"errors\":[]}", "{\"successes\":{},\"errors\":[]}", "{\"successes\":[],\"errors\":null}", "{\"successes\":\"x\",\"errors\":\"\"}"]);
          else if (kind === 6) { const w = h.choice("odd6", 8); const errors = [{}, null, "", 0, "x", { length: 0 }, undefined, { 0: { id } }][w]; text = JSON.stringify({ successes: [{ id, status: 201 }], errors }); if (h.flag("swap")) text = JSON.stringify({ successes: [[{ id, status: 201 }], { 0: { id, status: 201 } }, id, null][w % 4], errors: w % 4 === 0 ? 0 : [] }); }
          else { shaped = true; const n = h.choice("n", 3), ss = []; for (let i = 0; i < n; i++) { const w = h.choice("s" + i, 5); if (w === 0) listed = true; ss.push(w === 0 ? { id, status: 201 } : w === 1 ? { id: odd, status: 201 } : w === 2 ? null : w === 3 ? { status: 201 } : { id: "sid", status: 201 }); } errs = kind === 5 ? 1 : 0; text = JSON.stringify({ successes: ss, errors: errs ? [{ id: h.flag("own") ? id : "other", status: 400, message: "bad" }] : [] }); }
          return Promise.resolve(resp(status, text));
        });
        const st = await h.settle(m.c.score({ id: "sid", name: "n", value: 1, traceId: "t" })); h.assert(m.calls.length === 1, "one request");
        const ok = kind >= 3 && shaped && listed && errs === 0; const success = ok ? h.concrete(status < 300) : false;
        if (success) { h.reach("resolved"); h.assert(st.status === "fulfilled" && h.eq(st.value, { id: "sid" }), "acknowledged: resolves with the id sent"); } else { h.reach("rejected"); h.assert(st.status === "rejected", "not acknowledged: rejects"); if (st.status === "rejected") { h.assert(st.reason instanceof m.Err, "with the client's own error type"); if (kind > 2) h.assert(h.or(h.not(status >= 300), h.eq(st.reason.status, status)), "carrying the status"); } }
      },
    },
    {
      name: "request", bounds: "public key of 1..2 and base address tail of up to 2 symbolic units followed by 0..2 slashes; score fields of up to 2 symbolic units, numeric value over the reals, id and environment given or not", quick: {},
      run: async (h) => {
        const pk = h.string("pk", { min: 1, max: 2 }), tail = h.string("tail", { max: 2 }); h.assume(h.not(tail.endsWith("/"))); const slashes = "/".repeat(h.choice("slashes", 3)); const dflt = h.flag("dflt"); const env = h.pick("env", [undefined, "ce"]);
        const m = mk(h, Object.assign({ publicKey: pk }, dflt ? {} : { baseUrl: "https://b" + tail + slashes }, env ? { environment: env } : {}), (init) => good(init));
        const body = { name: h.string("name", { max: 2 }), value: h.flag("num") ? h.int("v", -9, 9) : h.string("vs", { max: 2 }), traceId: "t" }; const hasId = h.flag("id"); if (hasId) body.id = h.string("theid", { max: 2 }); const hasEnv = h.flag("hasEnv"); if (hasEnv) body.environment = h.string("benv", { max: 2 }); if (h.flag("more")) { body.comment = "c"; body.metadata = { a: [1, null] }; body.sessionId = "s"; body.dataType = "NUMERIC"; }
        const st = await h.settle(m.c.score(h.freeze(Object.assign({}, body)))); h.assert(st.status === "fulfilled", "resolves"); if (st.status !== "fulfilled") return;
        const { url, init } = m.calls[0]; h.assert(h.eq(url, (dflt ? "https://cloud.langfuse.com" : "https://b" + tail) + "/api/public/ingestion"), "address, trailing slashes ignored"); h.assert(init.method === "POST", "method");
        const sent = JSON.parse(init.body); h.assert(sent.batch.length === 1, "one event"); const e = sent.batch[0]; h.assert(e.type === "score-create" && UUID.test(e.id) && e.timestamp === new Date(h.now()).toISOString(), "event"); const b = Object.assign({}, e.body); if (!hasId) { h.assert(UUID.test(b.id), "an id is generated"); h.assert(h.eq(st.value, { id: b.id }), "the id sent is returned"); delete b.id; } else h.assert(h.eq(st.value, { id: body.id }), "the id sent is returned");
        const want = Object.assign({}, body); if (!hasEnv && env) want.environment = env; h.assert(h.eq(b, want), "exactly the caller's fields"); h.assert(h.eq(sent.metadata.public_key, pk) && sent.metadata.batch_size === 1, "request metadata");
        const hd = init.headers; h.assert(h.eq(hd.Authorization, "Bearer " + pk) && h.eq(hd["X-Langfuse-Public-Key"], pk) && hd["Content-Type"] === "application/json", "key headers");
      },
    },
    {
      name: "additional headers", bounds: "two additional headers whose names are a reserved name with two symbolic letters' case (or letter) varied, or a name of up to 3 symbolic ASCII units; symbolic values", quick: { cases: [0, 1, 2, 3, 4, 5].map((r) => ({ r })) },
      run: async (h) => {
        const names = ["authorization", "content-type", "x-langfuse-public-key", "x-langfuse-sdk-name", "x-langfuse-sdk-version", "x-langfuse-sdk-integration"]; const base = names[h.params.r]; const i = h.choice("i", base.length - 1); const c = h.string("c", { min: 1, max: 1, ascii: true }), up = h.flag("up"); let name = base.slice(0, i) + c + base.slice(i + 1); if (up) name = base.slice(0, i).toUpperCase() + c + base.slice(i + 1).toUpperCase();
        const val = h.string("val", { max: 2 }), other = h.string("other", { max: 2, ranges: [[48, 57], [97, 122]] }); const m = mk(h, { additionalHeaders: { [name]: val, ["x-" + other]: "O" } }, (init) => good(init)); await h.settle(m.c.score({ name: "n", value: 1 })); const hd = m.calls[0].init.headers;
        // what the server sees for a header: names compare without case, later ones are appended
        const seen = (n) => Object.keys(hd).filter((k) => h.concrete(h.eq(k.toLowerCase(), n))).map((k) => hd[k]); const reserved = { "authorization": "Bearer pk-1", "content-type": "application/json", "x-langfuse-public-key": "pk-1" };
        for (const n of names) { const l = seen(n); h.assert(l.length === 1, "each identity header once"); if (reserved[n]) h.assert(h.eq(l[0], reserved[n]), "its own value"); else h.assert(h.not(h.eq(l[0], val)) || true, ""); }
        const plain = mk(h, {}, (init) => good(init)); await h.settle(plain.c.score({ name: "n", value: 1 })); for (const n of names) { const k = Object.keys(plain.calls[0].init.headers).find((x) => x.toLowerCase() === n); h.assert(h.eq(seen(n)[0], plain.calls[0].init.headers[k]), "same value as without additional headers"); }
        h.assert(h.eq(hd["x-" + other], "O"), "other headers are sent"); const isRes = h.concrete(h.eq(name.toLowerCase(), base)); if (!isRes) h.assert(h.eq(hd[name], val), "a header of another name is sent");
      },
    },
    {
      name: "construction", bounds: "missing or empty public key; no fetch available; global fetch used when none is given", quick: {},
      run: async (h) => {
        const pk = h.pick("pk", [undefined, "", "k"]), own = h.flag("own"), glob = h.flag("glob"); if (!glob) h.global("fetch", undefined); else h.onFetch((u, init) => good(init)); const { LangfuseBrowserClient, LangfuseBrowserError } = h.require("@langfuse/browser");
        let used = 0; const r = h.attempt(() => new LangfuseBrowserClient(Object.assign({}, pk === undefined ? {} : { publicKey: pk }, own ? { fetch: (u, init) => { used++; return good(init); } } : {})));
        const ok = !!pk && (own || glob); h.assert((r.status === "fulfilled") === ok, "needs a key and a fetch"); if (!ok) { h.assert(r.reason instanceof LangfuseBrowserError, "own error type"); return; } const st = await h.settle(r.value.score({ name: "n", value: 1 })); h.assert(st.status === "fulfilled", "sends"); h.assert(used === (own ? 1 : 0) && h.fetches().length === (own ? 0 : 1), "by the given fetch, else the global one");
      },
    },
  ],
};
