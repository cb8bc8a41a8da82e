"use strict";
// node engine/main.js <property> [--only harness] [--tier quick|thorough]
const fs = require("fs"), path = require("path"), os = require("os"), cp = require("child_process");
const t0 = Date.now();
const VERIF = path.resolve(__dirname, "..");
const prop = path.basename(process.argv[2], ".js"); const arg = (n) => { const i = process.argv.indexOf(n); return i > 0 ? process.argv[i + 1] : undefined; };
const tier = arg("--tier") || process.env.VERIF_TIER || "quick"; const seed = Number(process.env.VERIF_SEED || 1) || 1;
const only = arg("--only"); const verbose = process.argv.includes("-v");
const file = process.argv[2].endsWith(".js") ? path.resolve(process.argv[2]) : path.join(VERIF, "props", prop + ".js");
const P = require(file);
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), "verif-"));
process.on("exit", () => { try { fs.rmSync(tmp, { recursive: true, force: true }); } catch {} });
const EV = path.join(VERIF, "evidence"); fs.mkdirSync(EV, { recursive: true });
const budget = (tier === "quick" ? P.quickBudgetS || 240 : P.thoroughBudgetS || 3000) * 1000;
const jobs = [];
for (const h of P.harnesses) {
  if (only && h.name !== only) continue;
  const cfg = (tier === "thorough" && h.thorough) || h.quick || {};
  for (const params of (cfg.cases || [{}])) jobs.push({ file, name: h.name, params: { ...(cfg.params || {}), ...params }, tier, seed, timeLimitMs: Math.min(budget, (cfg.timeS || (tier === "quick" ? 150 : 1500)) * 1000), maxPaths: cfg.maxPaths });
}
const results = []; let running = 0, next = 0, stopped = false; const kids = new Set(); const errors = [];
function launch() {
  while (!stopped && running < Math.max(2, Math.min(8, os.cpus().length)) && next < jobs.length) {
    const i = next++, job = jobs[i]; const left = budget - (Date.now() - t0); if (left < 2000) { results[i] = { name: job.name, params: job.params, notRun: true }; continue; }
    job.timeLimitMs = Math.min(job.timeLimitMs, left);
    const jf = path.join(tmp, `j${i}.json`), of = path.join(tmp, `o${i}.json`); fs.writeFileSync(jf, JSON.stringify(job));
    running++;
    const k = cp.spawn(process.execPath, ["--max-old-space-size=6000", "--stack-size=4000", path.join(__dirname, "worker.js"), jf, of], { stdio: ["ignore", "inherit", "inherit"], detached: true });
    kids.add(k);
    const killer = setTimeout(() => { kill(k); }, job.timeLimitMs + 60000);
    k.on("exit", (code) => { clearTimeout(killer); kids.delete(k); running--; if (fs.existsSync(of)) { const r = JSON.parse(fs.readFileSync(of, "utf8")); results[i] = r; if (r.violations.length && !process.env.VERIF_KEEP) { stopped = true; for (const x of kids) kill(x); } } else { results[i] = { name: job.name, params: job.params, crashed: true, code }; if (!stopped) errors.push(`${job.name} ${JSON.stringify(job.params)} exit ${code}`); } if (verbose && results[i]) report(results[i]); if (running === 0 && (stopped || next >= jobs.length)) finish(); else launch(); });
  }
  if (running === 0) finish();
}
const kill = (k) => { try { process.kill(-k.pid, "SIGKILL"); } catch {} };
process.on("SIGTERM", () => { for (const k of kids) kill(k); process.exit(5); });
function report(r) { if (r.crashed || r.notRun) { console.log(`  ${r.name} ${JSON.stringify(r.params)} ${r.crashed ? "CRASHED " + r.code : "not run"}`); return; } console.log(`  ${r.name} ${JSON.stringify(r.params || {})}: paths=${r.paths} exhausted=${r.exhausted}(${r.left}) incomplete=${r.incompletePaths} assumeCut=${r.assumeCut} replayed=${r.replayed} skip=${r.replaySkipped} mism=${r.mismatches.length} viol=${r.violations.length} unconf=${r.unconfirmed.length} q=${r.solver.queries} solver=${(r.solver.ms / 1000).toFixed(1)}s wall=${r.wall.toFixed(1)}s ${JSON.stringify(r.incompleteWhy)}`); for (const m of r.mismatches.slice(0, 2)) console.log("    MISMATCH " + JSON.stringify(m).slice(0, 3000)); for (const u of r.unconfirmed.slice(0, 3)) console.log("    UNCONFIRMED " + JSON.stringify(u).slice(0, 1500)); for (const v of r.violations) console.log("    VIOL " + JSON.stringify(v).slice(0, 2500)); }
let finished = false;
function finish() {
  if (finished) return; finished = true;
  const rs = results.filter((r) => r && !r.crashed && !r.notRun);
  const sum = (f) => rs.reduce((n, r) => n + f(r), 0);
  const fns = new Map(); for (const r of rs) for (const [k, v] of r.functions || []) fns.set(k, (fns.get(k) || 0) + v);
  const repoFns = [...fns.keys()].filter((k) => !k.startsWith("verif:") && !k.startsWith("dep:")).sort();
  const depFns = [...fns.keys()].filter((k) => k.startsWith("dep:"));
  // vacuity: every harness must have reached its assertions on some path
  const vac = []; for (const h of P.harnesses) { if (only && h.name !== only) continue; const mine = rs.filter((r) => r.name === h.name); const labels = new Set(mine.flatMap((r) => Object.keys(r.reached))); for (const l of h.mustReach || []) if (!labels.has(l) && !labels.has("reach:" + l)) vac.push(`${h.name}: ${l}`); if (mine.length && labels.size === 0 && !stopped) vac.push(`${h.name}: no assertion reached`); }
  const viols = rs.flatMap((r) => r.violations.map((v) => ({ harness: r.name, params: r.params, ...v })));
  const KF = readKnown();
  const why = {}; for (const r of rs) for (const [k, v] of Object.entries(r.incompleteWhy)) why[k] = (why[k] || 0) + v;
  const ev = {
    property: prop, tier, seed, level: "model_checking",
    coverage: {
      states: sum((r) => r.paths - r.infeasible - r.assumeCut), transitions: sum((r) => r.decisions), traces_validated_against_impl: sum((r) => r.replayed),
      samples: rs.flatMap((r) => r.samples || []).slice(0, 6),
      exhaustive: rs.length === jobs.length && rs.every((r) => r.exhausted && r.incompletePaths === 0),
      counting: "states = feasible symbolic paths (each covers every input value satisfying its path condition); transitions = branch decisions made by the solver along them",
      jobs: jobs.length, jobs_exhausted: rs.filter((r) => r.exhausted).length, incomplete_paths: sum((r) => r.incompletePaths), incomplete_reasons: why,
      assumption_pruned_paths: sum((r) => r.assumeCut), replay_skipped: sum((r) => r.replaySkipped), replay_mismatches: sum((r) => r.mismatches.length), unconfirmed_counterexamples: sum((r) => r.unconfirmed.length),
      solver: { name: "z3 (z3-new)", queries: sum((r) => r.solver.queries), sat: sum((r) => r.solver.sat), unsat: sum((r) => r.solver.unsat), unknown: sum((r) => r.solver.unknown), seconds: Math.round(sum((r) => r.solver.ms)) / 1000 },
      assertions: sum((r) => (r.stats && r.stats.assertions) || 0), bounds: P.harnesses.map((h) => ({ harness: h.name, bounds: h.bounds })), functions_encoded: repoFns, dependency_functions_encoded: depFns.length,
      vacuity: vac, harnesses: rs.map((r) => ({ name: r.name, params: r.params, paths: r.paths, exhausted: r.exhausted, incomplete: r.incompletePaths, queries: r.solver.queries, solver_s: r.solver.ms / 1000, wall_s: r.wall })), errors,
    },
    assumptions: P.assumptions || [], wall_s: (Date.now() - t0) / 1000, violations: viols.length,
  };
  let code = 0;
  const fresh = [];
  for (const v of viols) fresh.push(v);
  for (const k of KF) if (k.property === prop && k.status === "open") console.log(`KNOWN-FINDING: property=${prop} ${k.what}`);
  if (fresh.length) {
    const rp = path.join(EV, `replay-${prop}.json`);
    fs.writeFileSync(rp, JSON.stringify({ property: prop, file, tier, ...fresh[0] }, null, 1));
    console.log(`${prop}: ${fresh[0].harness} ${JSON.stringify(fresh[0].params)}: ${fresh[0].native.join("; ")}\n  inputs ${JSON.stringify(fresh[0].inputs).slice(0, 2000)}\n  reproduce: node ${path.join(VERIF, "engine/replay.js")} ${rp}`);
    console.log(`VIOLATION property=${prop} replay=${rp}`);
    code = 1;
  } else {
    const full = ev.coverage.exhaustive;
    console.log(`${prop}: held on ${ev.coverage.states} paths (${ev.coverage.solver.queries} queries, ${ev.coverage.solver.seconds}s solver, ${full ? "exhaustive within bounds" : "NOT exhaustive: " + JSON.stringify(why) + ` ${ev.coverage.jobs_exhausted}/${jobs.length} jobs exhausted`}) in ${ev.wall_s.toFixed(1)}s`);
    if (vac.length) console.log(`${prop}: VACUOUS ${vac.join("; ")}`);
    if (errors.length) { console.log(`${prop}: errors ${errors.join("; ")}`); }
    if (rs.length === 0) code = 2;
  }
  fs.writeFileSync(path.join(EV, prop + ".json"), JSON.stringify(ev, null, 1));
  process.exit(code);
}
function readKnown() { try { return JSON.parse(fs.readFileSync(path.join(VERIF, "known-findings.json"), "utf8")).findings || []; } catch { return []; } }
launch();
