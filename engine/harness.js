"use strict";
// The harness interface `h`, in a symbolic and a native (replay) version.
const T = require("./terms.js"), E = require("./state.js"), S = require("./sym.js"), $ = require("./runtime.js");
const { AsyncLocalStorage } = require("async_hooks");
const { Sym, SBool, SNum, SStr, isSym, mkBool } = S;
const ENV = require("./env.js");
const immediate = () => new Promise((r) => setImmediate(r));
// ---- deep equality as a term (symbolic) or boolean (native)
function isErr(v) { return v instanceof Error; }
function eqTerm(a, b, seen) {
  if (isSym(a) || isSym(b)) return $.seqTerm(a, b);
  if (a === b || (a !== a && b !== b)) return T.TRUE;
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object") return T.FALSE;
  seen = seen || new Map(); if (seen.get(a) === b) return T.TRUE; seen.set(a, b);
  const ba = ENV.bytesOf(a), bb = ENV.bytesOf(b); if (ba || bb) return ba && bb ? ENV.bytesEqTerm(ba, bb) : T.FALSE;
  if (a instanceof Date || b instanceof Date) { if (!(a instanceof Date && b instanceof Date)) return T.FALSE; const x = a.$ms !== undefined ? a.$ms : a.getTime(), y = b.$ms !== undefined ? b.$ms : b.getTime(); return eqTerm(x, y, seen); }
  if (isErr(a) || isErr(b)) return isErr(a) && isErr(b) && a.name === b.name ? eqTerm(a.message, b.message, seen) : T.FALSE;
  if (Array.isArray(a) !== Array.isArray(b)) return T.FALSE;
  if (Array.isArray(a)) { if (a.length !== b.length) return T.FALSE; return T.and(...a.map((x, i) => eqTerm(x, b[i], seen))); }
  if (a instanceof Map && b instanceof Map) { if (a.size !== b.size) return T.FALSE; return T.and(...[...a.keys()].map((k) => (b.has(k) ? eqTerm(a.get(k), b.get(k), seen) : T.FALSE))); }
  if (a instanceof Set && b instanceof Set) { if (a.size !== b.size) return T.FALSE; return T.and(...[...a].map((k) => T.bool(b.has(k)))); }
  const ka = Object.keys(a).filter((k) => a[k] !== undefined || E.phKeys.has(k)), kb = Object.keys(b).filter((k) => b[k] !== undefined || E.phKeys.has(k));
  if (ka.length !== kb.length) return T.FALSE;
  const ph = (k) => E.phKeys.has(k); const rest = new Set(kb), cs = [];
  const pend = [];
  for (const k of ka) if (rest.has(k)) { rest.delete(k); cs.push(eqTerm(a[k], b[k], seen)); } else pend.push(k);
  // remaining keys involve symbolic names: some pairing must work (keys within one object are distinct)
  const left = [...rest];
  for (const k of pend) { const kk = ph(k) ? E.phKeys.get(k) : k; cs.push(T.or(...left.map((l) => { const ll = ph(l) ? E.phKeys.get(l) : l; if (!ph(k) && !ph(l)) return T.FALSE; const e = S.eqStr(kk, ll); return e === T.FALSE || E.known(e) === false ? T.FALSE : T.and(e, eqTerm(a[k], b[l], seen)); }))); }
  return T.and(...cs);
}
function eqNat(a, b, seen) {
  if (a === b || (a !== a && b !== b)) return true;
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object") return false;
  seen = seen || new Map(); if (seen.get(a) === b) return true; seen.set(a, b);
  if (ArrayBuffer.isView(a) || ArrayBuffer.isView(b) || a instanceof ArrayBuffer || b instanceof ArrayBuffer) { const x = ENV.bytesOf(a), y = ENV.bytesOf(b); return !!x && !!y && x.length === y.length && x.every((v, i) => v === y[i]); }
  if (a instanceof Date || b instanceof Date) return a instanceof Date && b instanceof Date && a.getTime() === b.getTime();
  if (isErr(a) || isErr(b)) return isErr(a) && isErr(b) && a.name === b.name && a.message === b.message;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => eqNat(x, b[i], seen));
  if (a instanceof Map && b instanceof Map) return a.size === b.size && [...a.keys()].every((k) => b.has(k) && eqNat(a.get(k), b.get(k), seen));
  if (a instanceof Set && b instanceof Set) return a.size === b.size && [...a].every((k) => b.has(k));
  const ka = Object.keys(a).filter((k) => a[k] !== undefined), kb = Object.keys(b).filter((k) => b[k] !== undefined);
  return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && eqNat(a[k], b[k], seen));
}
// ---- asynchronous context, as @opentelemetry/context-async-hooks does it
function contextManager(ROOT) {
  const als = new AsyncLocalStorage();
  const m = { active: $.trust(() => als.getStore() || ROOT), with: $.trust((ctx, fn, thisArg, ...args) => als.run(ctx, () => fn.apply(thisArg, args))), bind: $.trust((ctx, target) => (typeof target === "function" ? $.trust(function (...a) { return als.run(ctx, () => target.apply(this, a)); }) : target)), enable: $.trust(() => m), disable: $.trust(() => m) };
  return m;
}
let pendingTicks = { n: 0 };
const tick = async () => { pendingTicks.n++; try { await immediate(); } finally { pendingTicks.n--; } };
function common(world, env, run, sym) {
  const tr = $.trust; const ctl = env.ctl;
  const h = {
    sym, params: run.params || {}, tier: run.tier,
    require: tr((s) => world.require(s, __filename.replace(/engine\/harness\.js$/, "props/x.js"))),
    env: ctl.env, ctl,
    setNow: tr((v) => { ctl.now = v; }), now: tr(() => ctl.now),
    clock: tr((f) => { ctl.onNow = f && (() => (sym ? $.invoke(f, undefined, []) : f())); }), random: tr((f) => { ctl.onRandom = f && (() => (sym ? $.invoke(f, undefined, []) : f())); }), randomBytes: tr((f) => { ctl.onByte = f && ((i) => (sym ? $.invoke(f, undefined, [i]) : f(i))); }), hash: tr((f) => { ctl.onHash = f && ((i) => (sym ? $.invoke(f, undefined, [i]) : f(i))); }), failHash: tr((b) => { ctl.failHash = b; }),
    digest: tr((data) => ctl.digest(data)), bytes: tr((l) => ctl.bytes(l)), buffer: tr((l) => ctl.buffer(l)),
    onFetch: tr((f) => { ctl.onFetch = f; }), fetches: tr(() => ctl.fetches), logs: tr(() => ctl.logs),
    api: tr((f) => { world.apiFactory = f; }), exporters: tr(() => world.exporters),
    // an API client of which only the given parts answer; every other call rejects
    apiStub: tr((over) => {
      const wrap = (o) => new Proxy(o, { get(t, k) { if (typeof k === "symbol" || k in t) { const v = t[k]; return v && typeof v === "object" && !Array.isArray(v) && typeof k === "string" ? wrap(v) : v; } if (k === "then" || k === "toJSON" || k[0] === "$") return undefined; return wrap(tr(() => Promise.reject(new Error("API call not expected here: " + k)))); } });
      return wrap(over || {});
    }),
    global: tr((k, v) => { if (ENV.GLOBALS.includes(k) && [...world.cache.keys()].some((f) => f.includes("/packages/"))) throw new Error("global " + k + " must be set before modules are loaded"); env.globals[k] = v; ctl.G[k] = v; }), G: ctl.G, globals: env.globals,
    timers: tr(() => ctl.timers.slice()), fire: tr((t) => ctl.fire(t)), nextTimer: tr(() => ctl.nextDue()),
    advance: tr(async (ms) => { const end = sym ? $.add(ctl.now, ms) : ctl.now + ms; const le = (a, b) => (sym ? $.t($.le(a, b)) : a <= b); for (let i = 0; i < 1000; i++) { const t = ctl.nextDue(); if (!t || !le(t.at, end)) break; if (le(ctl.now, t.at)) ctl.now = t.at; ctl.fire(t); await tick(); } ctl.now = end; await tick(); }),
    tick: tr(tick),
    // how a promise stands once nothing can run any more without a timer or an outside event
    settle: tr(async (p, opts) => {
      let st = { status: "pending" };
      Promise.resolve(p).then((v) => { st = { status: "fulfilled", value: v }; }, (e) => { st = { status: "rejected", reason: e }; });
      await tick();
      if (opts && opts.timers) for (let i = 0; i < 300 && st.status === "pending"; i++) { const t = ctl.nextDue(); if (!t) break; ctl.fire(t); await tick(); }
      if (st.status === "rejected" && st.reason instanceof E.PathAbort) throw st.reason;
      return st;
    }),
    attempt: tr((f) => { try { const v = sym ? $.invoke(f, undefined, []) : f(); return { status: "fulfilled", value: v }; } catch (e) { if (e instanceof E.PathAbort) throw e; return { status: "rejected", reason: e }; } }),
    deferred: tr(() => { const d = { settled: false }; d.promise = new Promise((res, rej) => { d.resolve = tr((v) => { d.settled = true; res(v); }); d.reject = tr((e) => { d.settled = true; rej(e); }); }); return d; }),
    contextManager: tr(contextManager), unhandled: tr(() => E.unhandled),
    freeze: tr((v) => { const go = (x) => { if (x && typeof x === "object" && !isSym(x) && !Object.isFrozen(x) && !ENV.bytesOf(x)) { Object.freeze(x); Object.values(x).forEach(go); } return x; }; return go(v); }),
    clone: tr((v) => { const go = (x) => (isSym(x) || x === null || typeof x !== "object" || ENV.bytesOf(x) || x instanceof Date ? x : Array.isArray(x) ? x.map(go) : Object.fromEntries(Object.keys(x).map((k) => [k, go(x[k])]))); return go(v); }),
  };
  return h;
}
function symH(world, env, run) {
  const h = common(world, env, run, true), tr = $.trust;
  const input = (name, sym) => { E.inputs.push({ name, sym }); return sym; };
  const term = (c) => $.truth(c);
  h.string = tr((name, o = {}) => {
    name = E.uniq(name); const max = o.max === undefined ? 3 : o.max, min = o.min || 0;
    const ranges = o.ranges || (o.chars ? [...new Set(o.chars.split(""))].map((c) => [c.charCodeAt(0), c.charCodeAt(0)]) : o.ascii ? [[32, 126]] : o.bmp ? [[0, 0xd7ff], [0xe000, 0xffff]] : [[0, 65535]]);
    const len = min === max ? T.int(min) : T.variable(name + ".len", "Int"); const chars = [];
    for (let i = 0; i < max; i++) { const c = T.variable(`${name}.${i}`, "Int"); chars.push(c); E.constrain(T.or(...ranges.map(([a, b]) => (a === b ? T.eq(c, T.int(a)) : T.and(T.le(T.int(a), c), T.le(c, T.int(b))))))); }
    if (min !== max) E.constrain(T.and(T.le(T.int(min), len), T.le(len, T.int(max))));
    const ascii = ranges.every((r) => r[1] < 128), nosur = ranges.every((r) => r[1] < 0xd800 || r[0] > 0xdfff);
    const v = S.mkStr(min === max ? chars.map(S.chr) : [{ k: "var", len, chars, max, min, ascii, nosur }]);
    return input(name, v);
  });
  h.ustring = tr((name, o = {}) => { name = E.uniq(name); const t = T.variable(name, "String"); if (o.max !== undefined) E.constrain(T.le(T.strlen(t), T.int(o.max))); if (o.min) E.constrain(T.le(T.int(o.min), T.strlen(t))); return input(name, S.mkStr([{ k: "trm", t, max: o.max }])); });
  // a string of symbolic length repeating one character
  h.lstring = tr((name, o = {}) => { name = E.uniq(name); const min = o.min || 0, max = o.max === undefined ? 100000 : o.max; const len = T.variable(name + ".len", "Int"); E.constrain(T.and(T.le(T.int(min), len), T.le(len, T.int(max)))); return input(name, S.mkStr([{ k: "rep", c: o.c || "x", len, min, max }])); });
  h.int = tr((name, lo, hi) => { name = E.uniq(name); const t = T.variable(name, "Int"); E.constrain(T.and(T.le(T.int(lo), t), T.le(t, T.int(hi)))); return input(name, lo === hi ? lo : new SNum(t, lo, hi)); });
  h.real = tr((name, lo, hi, open) => { name = E.uniq(name); const t = T.variable(name, "Real"); E.constrain(T.and(T.le(T.real(lo), t), open ? T.lt(t, T.real(hi)) : T.le(t, T.real(hi)))); return input(name, new SNum(t, lo, hi)); });
  h.bool = tr((name) => { name = E.uniq(name); return input(name, new SBool(T.variable(name, "Bool"))); });
  h.choice = tr((name, n) => { if (n <= 1) return 0; name = E.uniq(name); const t = T.variable(name, "Int"); E.constrain(T.and(T.le(T.int(0), t), T.lt(t, T.int(n)))); const s = new SNum(t, 0, n - 1); input(name, s); return S.forkInt(s); });
  h.pick = tr((name, l) => l[h.choice(name, l.length)]);
  h.flag = tr((name) => { const b = h.bool(name); return E.branch(b.t); });
  h.assume = tr((c) => E.assume(term(c)));
  h.assert = tr((c, label) => E.assertTerm(term(c), label || "assertion"));
  h.reach = tr((l) => { E.reached.add("reach:" + l); });
  h.observe = tr((l, v) => { E.observed.push([l, v]); });
  h.eq = tr((a, b) => mkBool(eqTerm(a, b)));
  h.and = tr((...l) => mkBool(T.and(...l.flat().map(term)))); h.or = tr((...l) => mkBool(T.or(...l.flat().map(term)))); h.not = tr((a) => mkBool(T.not(term(a)))); h.implies = tr((a, b) => mkBool(T.implies(term(a), term(b)))); h.iff = tr((a, b) => mkBool(T.eq(term(a), term(b))));
  h.ite = tr((c, a, b) => { c = term(c); if (c === T.TRUE) return a; if (c === T.FALSE) return b; if ((a instanceof SNum || typeof a === "number") && (b instanceof SNum || typeof b === "number")) { const x = $.iv(a), y = $.iv(b); return S.mkNum(T.ite(c, x.t, y.t), Math.min(x.lo, y.lo), Math.max(x.hi, y.hi)); } return E.branch(c) ? a : b; });
  h.isSym = tr(isSym); h.concrete = tr((v) => (v instanceof SNum ? S.forkInt(v) : v instanceof SBool ? E.branch(v.t) : v)); // forks, never samples
  h.known = tr((c) => E.known(term(c)));
  return h;
}
class Fail extends Error {}
class Skip extends Error {}
function natH(world, env, run, values) {
  const h = common(world, env, run, false);
  const names = new Map(); const uniq = (name) => { const n = (names.get(name) || 0) + 1; names.set(name, n); return n === 1 ? name : `${name}#${n}`; };
  const rec = run.rec; const val = (name, dflt) => (values.has(name) ? values.get(name) : dflt);
  h.string = (name, o = {}) => { name = uniq(name); return val(name, "a".repeat(o.min || 0)); };
  h.lstring = (name, o = {}) => val(uniq(name), (o.c || "x").repeat(o.min || 0)); h.ustring = (name) => val(uniq(name), ""); h.int = (name, lo) => val(uniq(name), lo); h.real = (name, lo) => val(uniq(name), lo); h.bool = (name) => val(uniq(name), false);
  h.choice = (name, n) => (n <= 1 ? 0 : val(uniq(name), 0)); h.pick = (name, l) => l[h.choice(name, l.length)]; h.flag = (name) => h.bool(name);
  h.assume = (c) => { if (!c) throw new Skip("assumption false in replay"); };
  h.assert = (c, label) => { if (!c) { rec.failures.push(label); } };
  h.reach = () => {}; h.observe = (l, v) => { rec.observed.push([l, v]); };
  h.eq = (a, b) => eqNat(a, b); h.and = (...l) => l.flat().every(Boolean); h.or = (...l) => l.flat().some(Boolean); h.not = (a) => !a; h.implies = (a, b) => !a || !!b; h.iff = (a, b) => !!a === !!b; h.ite = (c, a, b) => (c ? a : b);
  h.isSym = () => false; h.concrete = (v) => v; h.known = (c) => !!c;
  return h;
}
module.exports = { symH, natH, eqTerm, eqNat, Fail, Skip, immediate, pendingTicks };
