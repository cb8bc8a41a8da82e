"use strict";
const URLS = [["https://storage.googleapis.com/b/o?sig=1", true], ["https://bucket.storage.googleapis.com/o", true], ["https://STORAGE.googleapis.com:443/o", true], ["https://evilstorage.googleapis.com/o", false], ["https://storage.googleapis.com.evil.io/o", false], ["https://s3.amazonaws.com/storage.googleapis.com/o?x=storage.googleapis.com", false], ["http://localhost:9000/b/o", false], ["https://user.blob.core.windows.net/c/o", false], ["/relative", false]];
const DIGEST = Array.from({ length: 32 }, (_, i) => (i * 37 + 251) % 256); // contains bytes giving '+' and '/'
const b64 = Buffer.from(DIGEST).toString("base64"), ID = b64.replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
module.exports = {
  assumptions: ["the server's answers have the documented shape; the body of the storage answer can be read", "retries and base delay are non-negative"],
  harnesses: [
    {
      name: "attempts", bounds: "0..2 (quick) / 0..5 retries or the default; each attempt fails in the network or answers with any status 100..599; the status report may fail",
      quick: { params: { max: 2 } }, thorough: { params: { max: 5 }, timeS: 900 }, mustReach: ["stored", "failed", "default"],
      run: async (h) => {
        const { uploadMedia, LangfuseMedia } = h.require("@langfuse/core"); h.hash(() => DIGEST);
        const dflt = h.flag("default"); const max = dflt ? 3 : h.choice("max", h.params.max + 1); const base = dflt ? 1000 : h.int("base", 0, 100000);
        const b = h.int("b", 0, 255); const media = new LangfuseMedia({ source: "bytes", contentBytes: h.bytes([b, 7]), contentType: "image/png" });
        const log = []; const jit = []; h.random(() => { const r = h.real("r" + jit.length, 0, 1, true); jit.push(r); return r; });
        const patchFails = h.flag("patchFails"); const patches = [];
        const apiClient = h.apiStub({ media: { getUploadUrl: (r) => { log.push(r); return Promise.resolve({ uploadUrl: "https://up/x", mediaId: ID }); }, patch: (id, r) => { patches.push({ id, r, at: tries.length }); return patchFails ? Promise.reject(new Error("patch")) : Promise.resolve(); } } });
        const tries = []; const good = (s) => h.or(h.eq(s, 200), h.eq(s, 201)); let stopped = false;
        h.onFetch((url, init) => { h.assert(!stopped, "no attempt after a success"); const i = tries.length, at = h.now(); const t = { url, init, at }; tries.push(t); if (h.flag("net" + i)) { t.net = true; return Promise.reject(new Error("net" + i)); } const status = h.int("s" + i, 100, 599); t.status = status; if (good(status)) { stopped = true; t.ok = true; } return Promise.resolve({ status, ok: status >= 200 && status < 300, text: () => Promise.resolve("body" + i) }); });
        const start = h.now(); const p = uploadMedia(Object.assign({ apiClient, media, traceId: "t", observationId: "o", field: "input" }, dflt ? {} : { maxRetries: max, baseDelay: base }));
        const st = await h.settle(p, { timers: true }); h.observe("status", st.status);
        h.assert(st.status !== "pending", "ends"); h.assert(tries.length >= 1 && tries.length <= max + 1, "at most one attempt plus the retries"); if (dflt) h.reach("default");
        for (let i = 0; i < tries.length; i++) { const t = tries[i]; h.assert(t.url === "https://up/x" && t.init.method === "PUT" && h.eq(t.init.body, h.bytes([b, 7])), "every attempt sends the content to the given address"); if (i) { const d = t.at - tries[i - 1].at, lo = base * Math.pow(2, i - 1); h.assert(h.and(lo <= d + 1, d <= lo + 1001), "waits with exponential backoff"); } }
        const last = tries[tries.length - 1];
        if (!last.ok) h.assert(tries.length === max + 1, "every retry is used before giving up");
        h.assert(h.iff(st.status === "fulfilled", !!last.ok && !patchFails), "resolves exactly when stored and reported");
        if (last.net) { h.assert(st.reason.message === "net" + (tries.length - 1) && patches.length === 0, "the network error surfaces"); }
        else { h.assert(patches.length === 1 && patches[0].id === ID && patches[0].at === tries.length, "reported once, at the end"); const r = patches[0].r; h.assert(h.and(h.eq(r.uploadHttpStatus, last.status), h.eq(r.uploadHttpError, "body" + (tries.length - 1)), h.eq(r.uploadTimeMs, h.now() - start)), "the final status is reported"); }
        h.reach(last.ok ? "stored" : "failed");
      },
    },
    {
      name: "request", bounds: "content of 0..2 symbolic bytes; any of the five context ids present or not with up to 1 symbolic unit; 9 host shapes; server id equal, different (one unit replaced by any other), or missing; already uploaded with an empty, null or missing address; digest or type missing",
      quick: { cases: [{ m: "ctx" }, { m: "host" }, { m: "id" }, { m: "incomplete" }] }, mustReach: ["put", "dup", "mismatch", "incomplete"],
      run: async (h) => {
        const { uploadMedia, LangfuseMedia } = h.require("@langfuse/core"); const m = h.params.m; h.hash(() => DIGEST); const reqs = [], patches = []; const ctx = { field: "metadata" };
        let n = 1, type = "application/pdf", url = "https://up/x", gcs = false, id = ID, same = true, failHash = false, noBytes = false;
        if (m === "ctx") { for (const k of ["traceId", "observationId", "datasetId", "datasetItemId"]) if (h.flag(k)) ctx[k] = h.string(k + "v", { max: 1 }); ctx.field = h.pick("field", ["input", "output", "metadata", "expectedOutput"]); n = 2; }
        if (m === "host") { const u = h.pick("url", URLS); url = u[0]; gcs = u[1]; }
        if (m === "id") { const w = h.choice("w", 5); if (w === 0) { const i = h.choice("i", 22), c = h.string("c", { max: 2 }); id = ID.slice(0, i) + c + ID.slice(i + 1); same = h.eq(id, ID); if (same) same = true; else same = false; } else if (w === 1) { id = h.pick("mid", [undefined, null, "", b64.slice(0, 22)]); same = false; } else url = [null, undefined, ""][w - 2]; }
        if (m === "incomplete") { n = h.choice("n", 2); type = h.pick("type", ["image/png", undefined, ""]); failHash = h.flag("failHash"); h.failHash(failHash); noBytes = h.flag("noBytes"); }
        const bs = Array.from({ length: n }, (_, i) => h.int("b" + i, 0, 255));
        const media = m === "incomplete" && noBytes ? new LangfuseMedia({ source: "base64_data_uri", base64DataUri: "bad" }) : new LangfuseMedia({ source: "bytes", contentBytes: h.bytes(bs), contentType: type });
        const apiClient = h.apiStub({ media: { getUploadUrl: (r) => { reqs.push(r); return Promise.resolve({ uploadUrl: url, mediaId: id }); }, patch: (i, r) => { patches.push(i); return Promise.resolve(); } } });
        const puts = []; h.onFetch((u, i) => { puts.push({ u, i }); return Promise.resolve({ status: 200, ok: true, text: () => Promise.resolve("") }); });
        const st = await h.settle(uploadMedia(Object.assign({ apiClient, media }, ctx)), { timers: true });
        if (noBytes || failHash || n === 0 || !type) { h.reach("incomplete"); h.assert(st.status === "rejected" && reqs.length === 0 && puts.length === 0, "incomplete media is refused before anything is sent"); return; }
        h.assert(reqs.length === 1, "asks the server once"); h.assert(h.eq(reqs[0], Object.assign({ contentLength: n, contentType: type, sha256Hash: b64 }, ctx)), "with the content's own length, type, digest and context");
        if (!url) { h.reach("dup"); h.assert(st.status === "fulfilled" && puts.length === 0 && patches.length === 0, "already present: nothing sent"); return; }
        if (!same) { h.reach("mismatch"); h.assert(st.status === "rejected" && puts.length === 0 && patches.length === 0, "nothing is sent under another id"); return; }
        h.reach("put"); h.assert(st.status === "fulfilled" && puts.length === 1, "sent"); h.assert(puts[0].u === url && h.eq(puts[0].i.body, h.bytes(bs)) && puts[0].i.method === "PUT", "the content");
        const hd = {}; for (const k of Object.keys(puts[0].i.headers)) hd[k.toLowerCase()] = puts[0].i.headers[k];
        h.assert(h.eq(hd, gcs ? { "content-type": type } : { "content-type": type, "x-amz-checksum-sha256": b64, "x-ms-blob-type": "BlockBlob" }), "headers the storage requires");
        h.assert(h.eq(patches, [ID]), "reported");
      },
    },
  ],
};
