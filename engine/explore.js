"use strict";
const fs = require("fs"), path = require("path");
const E = require("./state.js"), S = require("./sym.js"), T = require("./terms.js"), $ = require("./runtime.js");
const { Solver } = require("./solver.js");
const { World, VERIF } = require("./loader.js");
const { makeEnv } = require("./env.js");
const H = require("./harness.js");
const drain = async (n = 2) => { for (let i = 0; i < n; i++) await H.immediate(); };
let current = null; // who collects unhandled rejections
process.on("unhandledRejection", (e) => { if (e instanceof E.PathAbort) return; if (current) current.push(e); });
process.on("uncaughtException", (e) => { if (e instanceof E.PathAbort) return; if (current) current.push(e); else { console.error(e); process.exit(3); } });
// run a harness function to completion; "hang" when nothing can make progress
async function drive(fn, isAborted) {
  let done = null;
  Promise.resolve().then(fn).then(() => { done = { ok: true }; }, (e) => { done = { ok: false, error: e }; });
  for (let idle = 0; ; ) {
    await H.immediate();
    if (done) return done;
    if (isAborted()) return { ok: false, error: new E.PathAbort("aborted") };
    if (H.pendingTicks.n > 0) { idle = 0; continue; }
    if (++idle > 3) return { ok: false, hang: true };
  }
}
function loadHarness(world, file, name) { const m = world.load(file); const hs = m.harnesses; return hs.find((x) => x.name === name); }
async function runNative(file, name, run, values) {
  const rec = { failures: [], observed: [], unhandled: [] }; current = rec.unhandled;
  const saved = E.aborted; E.aborted = null; const phc = E.phCount; E.phCount = 0; H.pendingTicks.n = 0;
  const env = makeEnv(false); const meta = run.meta || {};
  let out;
  try {
    const world = new World({ sym: false, env, instrumentApi: meta.instrumentApi, stubs: meta.stubs });
    const h = H.natH(world, env, { ...run, rec }, values);
    const hs = loadHarness(world, file, name);
    out = await drive(() => hs.run(h), () => false);
    if (!out.ok && !out.hang && out.error instanceof H.Skip) rec.skipped = true;
    else if (out.hang) rec.failures.push("the harness never finishes (deadlock)");
    else if (!out.ok) { rec.failures.push("unexpected exception: " + errText(out.error)); rec.exception = out.error; }
    await drain(2);
    if (meta.noUnhandled !== false && rec.unhandled.length && !rec.skipped) rec.failures.push("unhandled rejection: " + errText(rec.unhandled[0]));
  } catch (e) { rec.failures.push("harness could not be loaded: " + errText(e)); rec.loadError = e; }
  env.ctl.clearTimers(); current = null; E.aborted = saved; E.phCount = phc;
  return rec;
}
const errText = (e) => { try { return e && e.stack && e.message !== undefined && !S.isSym(e.message) ? `${e.name}: ${e.message}` : String(e && e.message !== undefined ? "error" : e); } catch { return "error"; } };
const norm = (v) => JSON.stringify(v, (k, x) => (x === undefined ? "\u0001undefined" : typeof x === "number" && !Number.isFinite(x) ? "\u0001" + x : typeof x === "bigint" ? "\u0001" + x : typeof x === "symbol" ? "\u0001sym" : x));
const plain = (v) => S.evalDeep(v, { vals: new Map(), reals: new Map() });
async function explore(opts) {
  const { file, name, run, timeLimitMs, maxPaths = 1e9, replayAll = true } = opts;
  const meta = run.meta || {};
  E.solver = new Solver({ timeoutMs: meta.solverTimeoutMs || 8000 });
  E.maxSteps = meta.maxSteps || 3e6;
  const t0 = Date.now();
  const R = { name, params: run.params, paths: 0, infeasible: 0, assumeCut: 0, incompletePaths: 0, incompleteWhy: {}, violations: [], unconfirmed: [], replayed: 0, mismatches: [], nativeFailures: [], exhausted: false, reached: {}, functions: [], decisions: 0, samples: [], replaySkipped: 0 };
  const work = [null]; const fnAll = new Map(); let rng = (run.seed || 1) >>> 0; const seenTrails = 0;
  E.functions = fnAll;
  const valuesOf = (inputs, model) => { const m = new Map(); for (const i of inputs) { const v = S.evalSym(i.sym, model); m.set(i.name, S.isSym(i.sym) ? v : i.sym); } return m; };
  const confirm = async (labels, inputs, model) => {
    const values = valuesOf(inputs, model); const rec = await runNative(file, name, run, values);
    const v = { labels, inputs: Object.fromEntries(values), native: rec.failures, skipped: rec.skipped };
    if (rec.failures.length) { R.violations.push(v); return true; }
    R.unconfirmed.push({ ...v, note: "did not reproduce" }); return false;
  };
  while (work.length) {
    if (Date.now() - t0 > timeLimitMs || R.paths >= maxPaths) break;
    let item; if (R.paths % 5 === 4 && work.length > 3) { rng = (Math.imul(rng, 1103515245) + 12345) >>> 0; item = work.splice(rng % work.length, 1)[0]; } else item = work.pop();
    E.resetPath(item); E.active = true; H.pendingTicks.n = 0; current = E.unhandled;
    E.deadline = t0 + timeLimitMs * 1.2 + 3000;
    const env = makeEnv(true); let viol = null;
    E.onViolation = (v) => { viol = v; };
    let out;
    try {
      const world = new World({ sym: true, env, instrumentApi: meta.instrumentApi, stubs: meta.stubs });
      const h = H.symH(world, env, run);
      const hs = loadHarness(world, file, name);
      out = await drive(() => hs.run(h), () => !!E.aborted);
      if (out.ok || out.hang || !(out.error instanceof E.PathAbort)) { if (out.ok && !E.aborted) { await drain(1); try { E.flushAsserts(); } catch (e) { if (!(e instanceof E.PathAbort)) throw e; out = { ok: false, error: e }; } } }
    } catch (e) { if (e instanceof E.PathAbort) out = { ok: false, error: e }; else out = { ok: false, error: e, engine: true }; }
    const ab = E.aborted;
    let inc = E.incomplete.length > 0;
    const observed = E.observed, inputs = E.inputs.slice();
    R.paths++; R.decisions += E.trail.length;
    work.push(...E.alts.reverse()); E.alts = [];
    if (ab && ab.kind === "infeasible") { R.infeasible++; }
    else if (ab && ab.kind === "assume") { R.assumeCut++; }
    else {
      let model = null, labels = null;
      if (viol) { model = viol.model; labels = viol.labels; }
      else if (!ab && !out.ok && !(out.error instanceof E.PathAbort)) { // unexpected exception or deadlock
        if (process.env.VERIF_DEBUG) console.error("PATH ERROR", out.error && out.error.stack);
        const ok = safeEnsure(); if (ok) { model = E.model; labels = [out.hang ? "the harness never finishes (deadlock)" : "unexpected exception: " + errText(out.error)]; }
      } else if (!ab && out.ok && meta.noUnhandled !== false && E.unhandled.length) { const ok = safeEnsure(); if (ok) { model = E.model; labels = ["unhandled rejection: " + errText(E.unhandled[0])]; } }
      for (const w of E.incomplete) R.incompleteWhy[w] = (R.incompleteWhy[w] || 0) + 1;
      if (ab && !viol && (ab.kind === "incomplete" || ab.kind === "bound" || ab.kind === "nondet")) { const w = `${ab.kind}: ${ab.msg || ""}`; R.incompleteWhy[w] = (R.incompleteWhy[w] || 0) + 1; inc = true; }
      for (const l of E.reached) R.reached[l] = (R.reached[l] || 0) + 1;
      if (labels) {
        E.aborted = E.aborted || { kind: "done" };
        const ok = await confirm(labels, inputs, model);
        if (!ok) { inc = true; R.incompleteWhy["counterexample did not reproduce: " + labels[0]] = 1; }
        else if (R.violations.length >= (opts.maxViolations || 1)) { R.incompletePaths += inc ? 1 : 0; break; }
      } else if (replayAll && (out.ok || (ab && (ab.kind === "incomplete" || ab.kind === "bound"))) ) {
        // validate the encoding: one concrete input of this path, natively
        const okm = safeEnsure();
        if (okm) {
          const m = E.model; let symObs = null; const okAll = out.ok && !ab;
          if (okAll) { try { symObs = norm(S.evalDeep(observed, m)); } catch (e) { symObs = null; } }
          const values = valuesOf(inputs, m); const ph = E.phKeys;
          E.aborted = E.aborted || { kind: "done" };
          await drain(2);
          const rec = await runNative(file, name, run, values);
          if (rec.skipped) R.replaySkipped++;
          else {
            R.replayed++;
            const natObs = norm(plain(rec.observed));
            if (rec.failures.length) { R.violations.push({ labels: rec.failures, inputs: Object.fromEntries(values), native: rec.failures, byReplay: true }); if (R.violations.length >= (opts.maxViolations || 1)) break; }
            else if (okAll && symObs !== natObs) { inc = true; if (R.mismatches.length < 5) R.mismatches.push({ inputs: Object.fromEntries(values), symbolic: (symObs || "").slice(0, 2000), native: natObs.slice(0, 2000) }); R.incompleteWhy["symbolic and native observations differ"] = (R.incompleteWhy["symbolic and native observations differ"] || 0) + 1; }
            if (R.samples.length < 3) R.samples.push({ harness: name, params: run.params, inputs: trimVals(values) });
          }
        } else if (okm === undefined) inc = true;
      }
      if (inc) R.incompletePaths++;
    }
    E.aborted = E.aborted || { kind: "done" }; env.ctl.clearTimers();
    await drain(2); E.active = false; current = null;
    if (opts.onProgress) opts.onProgress(R, work.length);
  }
  R.exhausted = work.length === 0; R.left = work.length;
  R.functions = [...fnAll.entries()].map(([k, v]) => [k, v]);
  R.wall = (Date.now() - t0) / 1000; const s = E.solver; R.solver = { queries: s.queries, sat: s.sat, unsat: s.unsat, unknown: s.unknown, ms: Math.round(s.ms), restarts: s.restarts };
  R.stats = { ...E.stats }; s.close();
  return R;
}
const trimVals = (m) => Object.fromEntries([...m].slice(0, 12).map(([k, v]) => [k, typeof v === "string" && v.length > 80 ? v.slice(0, 77) + "..." : v]));
function safeEnsure() { const a = E.aborted; E.aborted = null; try { return E.ensureModel(); } catch { return false; } finally { E.aborted = a; } }
module.exports = { explore, runNative };
