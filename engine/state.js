"use strict";
// Path state and branching.
const T = require("./terms.js");
class PathAbort extends Error { constructor(kind, msg) { super(kind + (msg ? ": " + msg : "")); this.kind = kind; } }
const E = {
  active: false, // a symbolic path is being executed
  solver: null,
  // per path
  pc: [], trail: [], pos: 0, model: null, alts: [], aborted: null, steps: 0, maxSteps: 5e6,
  asserts: [], incomplete: [], names: new Map(), inputs: [], functions: new Map(), phKeys: new Map(), roundings: new Map(), phCount: 0, freshN: 0, decisions: 0,
  stats: { branches: 0, forks: 0, assumptions: 0 },
  debug: process.env.VERIF_DEBUG === "1",
};
E.PathAbort = PathAbort;
E.resetPath = function (item) {
  E.pc = []; E.pcSet = new Set(); E.trail = item ? item.trail.slice() : []; E.pos = 0; E.model = item && item.model ? item.model : { vals: new Map(), reals: new Map() };
  E.modelOk = true; E.alts = []; E.aborted = null; E.steps = 0; E.asserts = []; E.incomplete = []; E.names = new Map(); E.inputs = []; E.phKeys = new Map(); E.roundings = new Map(); E.phCount = 0; E.freshN = 0; E.decisions = 0; E.observed = []; E.reached = new Set(); E.unhandled = [];
};
E.abort = function (kind, msg) { if (!E.aborted) { E.aborted = { kind, msg }; if (E.onAbort) E.onAbort(); } throw new PathAbort(kind, msg); };
E.checkAbort = function () { if (E.aborted) throw new PathAbort(E.aborted.kind, E.aborted.msg); };
E.tick = function () { if (E.aborted) throw new PathAbort(E.aborted.kind, E.aborted.msg); if (++E.steps > E.maxSteps) { E.note("step bound reached"); E.abort("bound", "step bound"); } };
E.note = function (why) { if (E.incomplete.length < 50) { E.incomplete.push(why); if (E.debug) console.error("INCOMPLETE " + why + "\n" + new Error().stack.split("\n").slice(2, 9).join("\n")); } };
function addPc(c) {
  if (c === T.TRUE) return;
  for (const x of c.op === "and" ? c.args : [c]) if (!E.pcSet.has(x)) { E.pc.push(x); E.pcSet.add(x); if (E.modelOk && T.ev(x, E.model) !== true) E.modelOk = false; }
}
E.addPc = addPc;
function known(c) { // cheap syntactic entailment
  if (c === T.TRUE) return true; if (c === T.FALSE) return false;
  if (E.pcSet.has(c)) return true; if (E.pcSet.has(T.not(c))) return false;
  if (c.op === "and") { let all = true; for (const x of c.args) { const k = known(x); if (k === false) return false; if (k !== true) all = false; } return all ? true : undefined; }
  if (c.op === "or") { let none = true; for (const x of c.args) { const k = known(x); if (k === true) return true; if (k !== false) none = false; } return none ? false : undefined; }
  return undefined;
}
E.known = known;
function ensureModel() {
  if (E.modelOk) return true;
  const r = E.solver.check(E.pc, null, true);
  if (r.r === "sat") { E.model = r.model; E.modelOk = true; return true; }
  if (r.r === "unsat") return false;
  E.note("solver unknown on path condition"); return undefined;
}
E.ensureModel = ensureModel;
// decide a boolean term, forking when both sides are feasible
E.branch = function (c) {
  E.tick();
  const k = known(c); if (k !== undefined) return k;
  E.stats.branches++;
  if (E.pos < E.trail.length) {
    const d = E.trail[E.pos];
    if (d.id !== c.id) { E.note("non-deterministic replay of the decision trail"); E.abort("nondet", `decision ${E.pos}: ${d.id} vs ${c.id}`); }
    E.pos++; addPc(d.b ? c : T.not(c)); return d.b;
  }
  // new decision
  const m = ensureModel();
  if (m === false) E.abort("infeasible");
  const side = m ? T.ev(c, E.model) : undefined;
  let b;
  if (side !== undefined) {
    b = side;
    const other = b ? T.not(c) : c;
    const r = E.solver.check(E.pc, other, true);
    if (r.r !== "unsat") { E.stats.forks++; if (process.env.VFORK) process.stderr.write("FORK " + new Error().stack.split("\n").slice(2).filter((l) => !/node:/.test(l)).slice(0, +process.env.VFORK).map((l) => l.trim().replace(/^at /, "").replace(/\(.*\//, "(")).join(" < ") + "\n"); if (r.r === "unknown") E.note("solver unknown on a branch"); E.alts.push({ trail: [...E.trail.slice(0, E.pos), { id: c.id, b: !b }], model: r.model || null, pos: E.pos }); }
  } else {
    const rt = E.solver.check(E.pc, c, true);
    const rf = E.solver.check(E.pc, T.not(c), true);
    if (rt.r === "unknown" || rf.r === "unknown") E.note("solver unknown on a branch");
    if (rt.r === "unsat" && rf.r === "unsat") E.abort("infeasible");
    if (rt.r !== "unsat") { b = true; if (rf.r !== "unsat") { E.stats.forks++; E.alts.push({ trail: [...E.trail.slice(0, E.pos), { id: c.id, b: false }], model: rf.model || null }); } if (rt.model) { E.model = rt.model; E.modelOk = true; } else E.modelOk = false; }
    else { b = false; if (rf.model) { E.model = rf.model; E.modelOk = true; } else E.modelOk = false; }
  }
  E.trail.push({ id: c.id, b }); E.pos = E.trail.length;
  addPc(b ? c : T.not(c));
  return b;
};
E.assume = function (c) {
  E.checkAbort(); E.stats.assumptions++;
  const k = known(c); if (k === true) return; if (k === false) E.abort("assume");
  E.flushAsserts();
  addPc(c);
  const m = ensureModel(); if (m === false) E.abort("assume");
};
// constraints on fresh variables: never infeasible
E.constrain = function (c) { if (c === T.FALSE) E.abort("infeasible"); addPc(c); };
E.assertTerm = function (c, label, info) {
  E.checkAbort(); E.stats.assertions = (E.stats.assertions || 0) + 1;
  const k = known(c);
  E.reached.add(label);
  if (k === true) { E.stats.trivial = (E.stats.trivial || 0) + 1; return; }
  E.asserts.push({ c, label, info });
  if (k === false || (E.modelOk && T.ev(c, E.model) === false)) E.flushAsserts();
};
E.flushAsserts = function () {
  if (!E.asserts.length) return;
  const list = E.asserts; E.asserts = [];
  const bad = T.or(...list.map((a) => T.not(a.c)));
  if (bad === T.FALSE) return;
  let model = null;
  if (E.modelOk && T.ev(bad, E.model) === true) model = E.model;
  else {
    const r = E.solver.check(E.pc, bad, true);
    E.stats.assertQueries = (E.stats.assertQueries || 0) + 1;
    if (r.r === "sat") model = r.model;
    else if (r.r === "unknown") { E.note("solver unknown on assertion(s) " + list.map((a) => a.label).slice(0, 3).join("; ")); }
  }
  if (model) {
    const which = list.filter((a) => T.ev(a.c, model) !== true);
    E.onViolation({ labels: (which.length ? which : list).map((a) => a.label), model, inputs: E.inputs.slice() });
    E.abort("violation", list.map((a) => a.label).join("; "));
  }
  for (const a of list) addPc(a.c);
};
E.fresh = function (base, sort) { return T.variable(`${base}!${E.freshN++}!${sort}`, sort); };
E.uniq = function (name) { const n = (E.names.get(name) || 0) + 1; E.names.set(name, n); return n === 1 ? name : `${name}#${n}`; };
module.exports = E;
