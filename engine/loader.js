"use strict";
// Loads /repo's current sources into a fresh module world, instrumented (symbolic) or merely lowered (native replay).
const fs = require("fs"), path = require("path"), vm = require("vm"), Module = require("module");
const { instrument, lower } = require("./instrument.js");
const { GLOBALS } = require("./env.js");
const E = require("./state.js"), $ = require("./runtime.js");
const REPO = process.env.VERIF_REPO || "/repo";
const VERIF = path.resolve(__dirname, "..");
const esbuild = require(process.env.VERIF_ESBUILD || "/opt/veriftools/node/node_modules/esbuild");
const PARAMS = ["require", "exports", "module", "__filename", "__dirname", "$", "$$F", "$import", ...GLOBALS];
const compiled = { sym: new Map(), nat: new Map() };
const sources = new Map();
const stats = { files: new Set() };
// packages whose own code is executed symbolically, bundled one by one
const INSTRUMENTED = new Set(["@opentelemetry/api", "@opentelemetry/core", "@opentelemetry/sdk-trace-base", "@opentelemetry/resources", "mustache"]);
const EXTERNAL = [...INSTRUMENTED].filter((x) => x !== "mustache");
function bundle(entry) {
  const r = esbuild.buildSync({ entryPoints: [entry], bundle: true, write: false, format: "cjs", platform: "node", target: "es2018", external: EXTERNAL, logLevel: "silent", mainFields: ["main"], conditions: ["require", "node", "default"], define: {}, preserveSymlinks: false });
  return r.outputFiles[0].text;
}
function jsOf(file) {
  let s = sources.get(file); if (s) return s;
  if (file.endsWith(".json")) s = "module.exports = " + fs.readFileSync(file, "utf8") + ";";
  else if (file.includes("/node_modules/")) s = bundle(file);
  else s = lower(fs.readFileSync(file, "utf8"), file);
  sources.set(file, s); return s;
}
function compile(file, sym) {
  const cache = sym ? compiled.sym : compiled.nat; let c = cache.get(file); if (c) return c;
  let code = jsOf(file), labels = [];
  if (sym && !file.endsWith(".json")) { const r = instrument(code, file); code = r.code; const short = file.startsWith(REPO + "/packages/") ? file.slice((REPO + "/packages/").length) : file.startsWith(VERIF) ? "verif:" + path.basename(file) : "dep:" + file.replace(/^.*node_modules\//, ""); labels = r.fns.map((f) => short + "#" + f); }
  const src = `(function(${PARAMS.join(",")}){ return (function(){ ${code}\n}).call(this); })`;
  const fn = new vm.Script(src, { filename: (sym ? "sym:" : "nat:") + file }).runInThisContext();
  const counts = labels; const mark = (n) => { const l = counts[n]; E.functions.set(l, (E.functions.get(l) || 0) + 1); if (E.aborted) E.checkAbort(); };
  c = { fn, mark }; cache.set(file, c); return c;
}
const PKG = (n) => path.join(REPO, "packages", n, "src", "index.ts");
let apiBundle;
function nativeApi() {
  if (apiBundle) return apiBundle;
  const r = esbuild.buildSync({ entryPoints: [path.join(REPO, "packages/core/src/api/index.ts")], bundle: true, write: false, format: "cjs", platform: "node", target: "node20", logLevel: "silent" });
  const m = new Module("api-bundle"); m.paths = Module._nodeModulePaths(path.join(REPO, "packages/core")); m._compile(r.outputFiles[0].text, "/tmp/api-bundle.js"); apiBundle = m.exports; return apiBundle;
}
const isApi = (f) => f.startsWith(path.join(REPO, "packages/core/src/api") + "/");
const natReq = Module.createRequire(path.join(REPO, "packages/langchain/src/x.js"));
class World {
  constructor({ sym, env, instrumentApi, stubs }) { this.sym = sym; this.env = env; this.cache = new Map(); this.instrumentApi = instrumentApi; this.stubs = stubs || {}; this.apiFactory = null; this.exporters = []; }
  resolve(spec, from) {
    if (spec.startsWith("node:")) return { native: spec };
    const m = /^@langfuse\/([\w-]+)$/.exec(spec);
    if (m) return { file: PKG(m[1]) };
    if (/^packages\//.test(spec)) return { file: path.join(REPO, spec) };
    if (spec.startsWith(".") || spec.startsWith("/")) {
      const base = path.resolve(path.dirname(from), spec);
      for (const c of [base, base.replace(/\.(js|mjs|cjs)$/, ".ts"), base + ".ts", base + ".js", path.join(base, "index.ts"), path.join(base, "index.js")]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return { file: c };
      throw new Error(`cannot resolve ${spec} from ${from}`);
    }
    if (this.stubs[spec]) return { stub: this.stubs[spec] };
    if (INSTRUMENTED.has(spec)) { for (const p of [from.startsWith(VERIF) ? path.join(REPO, "packages/otel/src") : path.dirname(from), path.join(REPO, "packages/otel/src"), path.join(REPO, "packages/client/src"), REPO]) { try { return { file: fs.realpathSync(require.resolve(spec, { paths: [p] })) }; } catch {} } }
    return { ext: spec, from };
  }
  require(spec, from) {
    const r = this.resolve(spec, from);
    if (r.stub) return r.stub(this);
    if (r.native || r.ext) return this.external(r.native || r.ext, r.from);
    return this.load(r.file);
  }
  external(spec, from) {
    const bare = spec.replace(/^node:/, "");
    if (bare === "async_hooks") return require("async_hooks");
    if (bare === "crypto") return { ...require("crypto"), webcrypto: this.env.globals.crypto, randomUUID: this.env.globals.crypto.randomUUID };
    if (bare === "buffer") return { Buffer: this.env.globals.Buffer };
    if (bare === "perf_hooks") return { performance: this.env.globals.performance };
    if (bare === "process") return this.env.globals.process;
    if (Module.builtinModules.includes(bare)) return require(bare);
    if (/exporter-trace-otlp/.test(spec)) { const w = this; class OTLPTraceExporter { constructor(o) { this.opts = o; this.batches = []; w.exporters.push(this); } export(s, cb) { this.batches.push(s); cb({ code: 0 }); } async shutdown() {} async forceFlush() {} } for (const n of ["export", "shutdown", "forceFlush"]) OTLPTraceExporter.prototype[n].$trusted = true; return { OTLPTraceExporter }; }
    try { return Module.createRequire(from || path.join(REPO, "packages/langchain/src/x.js"))(spec); } catch (e) { try { return natReq(spec); } catch { throw e; } }
  }
  load(file) {
    let m = this.cache.get(file); if (m) return m.exports;
    if (isApi(file) && !this.instrumentApi) {
      m = { exports: null }; this.cache.set(file, m); const w = this;
      class LangfuseAPIClient { constructor(o) { if (w.apiFactory) return w.apiFactory(o); this._options = o; } }
      const cls = this.apiClass || (this.apiClass = LangfuseAPIClient);
      m.exports = { ...nativeApi(), LangfuseAPIClient: cls }; return m.exports;
    }
    m = { exports: {} }; this.cache.set(file, m); stats.files.add(file);
    const c = compile(file, this.sym && !file.endsWith(".json"));
    const req = (s) => this.require(s, file); const imp = async (s) => this.require(s, file);
    c.fn.call(m.exports, req, m.exports, m, file, path.dirname(file), $, c.mark, imp, ...GLOBALS.map((n) => this.env.globals[n]));
    return m.exports;
  }
}
module.exports = { World, REPO, VERIF, stats, nativeApi, compile };
