"use strict";
// The runtime that instrumented code calls for every operation.
const T = require("./terms.js");
const E = require("./state.js");
const S = require("./sym.js");
const R = require("./regex.js");
const { Sym, SBool, SNum, SStr, isSym, mkBool, mkNum, mkStr } = S;
const $ = {};
const MARK = "$$F(";
const models = new Map(); // function -> (thisv, args) => result
const safe = new Set();
const PH = "\u0000\u00a7";
// ---------- truthiness
function truth(v) { // term or boolean
  if (v instanceof SBool) return v.t; if (v instanceof SNum) return T.not(T.eq(v.t, v.isReal ? T.real(0) : T.int(0))); if (v instanceof SStr) return S.truthyStr(v);
  return T.bool(!!v);
}
$.t = (v) => { if (!(v instanceof Sym)) { if (E.aborted) E.checkAbort(); return !!v; } return E.branch(truth(v)); };
$.not = (v) => (v instanceof Sym ? mkBool(T.not(truth(v))) : !v);
$.and = (a, f) => ($.t(a) ? f() : a);
$.or = (a, f) => ($.t(a) ? a : f());
$.tof = (v) => (v instanceof Sym ? (v instanceof SBool ? "boolean" : v instanceof SNum ? "number" : "string") : typeof v);
const isStr = (v) => typeof v === "string" || v instanceof SStr;
const isNum = (v) => typeof v === "number" || v instanceof SNum;
const isBool = (v) => typeof v === "boolean" || v instanceof SBool;
// ---------- equality
function seqTerm(a, b) {
  if (isStr(a) && isStr(b)) return S.eqStr(a, b);
  if (isNum(a) && isNum(b)) {
    if (a instanceof SNum && b instanceof SNum) { if (a.hi < b.lo || b.hi < a.lo) return T.FALSE; return T.eq(...unify(a.t, b.t)); }
    const s = a instanceof SNum ? a : b, n = a instanceof SNum ? b : a;
    if (Number.isNaN(n) || !Number.isFinite(n) || n < s.lo || n > s.hi) return T.FALSE;
    if (s.isReal) return T.eq(s.t, T.real(n)); return Number.isInteger(n) ? T.eq(s.t, T.int(n)) : T.FALSE;
  }
  if (isBool(a) && isBool(b)) return T.eq(truth(a), truth(b));
  return T.FALSE;
}
const unify = (a, b) => (a.sort === b.sort ? [a, b] : [T.toReal(a), T.toReal(b)]);
$.seq = (a, b) => (a instanceof Sym || b instanceof Sym ? mkBool(seqTerm(a, b)) : a === b);
$.sne = (a, b) => (a instanceof Sym || b instanceof Sym ? mkBool(T.not(seqTerm(a, b))) : a !== b);
function looseTerm(a, b) {
  if (a == null || b == null) return T.FALSE;
  if ((isStr(a) && isStr(b)) || (isNum(a) && isNum(b)) || (isBool(a) && isBool(b))) return seqTerm(a, b);
  return T.bool(S.concretizeNote(a, "loose equality") == S.concretizeNote(b, "loose equality"));
}
$.eq = (a, b) => (a instanceof Sym || b instanceof Sym ? mkBool(looseTerm(a, b)) : a == b);
$.ne = (a, b) => (a instanceof Sym || b instanceof Sym ? mkBool(T.not(looseTerm(a, b))) : a != b);
$.sameValueZero = (a, b) => (a instanceof Sym || b instanceof Sym ? E.branch(seqTerm(a, b)) : a === b || (a !== a && b !== b));
// ---------- numbers
const num = (v) => { // to SNum-like {t,lo,hi} or JS number
  if (v instanceof SNum || typeof v === "number") return v;
  if (v instanceof SBool) return E.branch(v.t) ? 1 : 0;
  if (v instanceof SStr) return toNumber(v);
  if (v instanceof Date && v.$ms !== undefined) return v.$ms;
  return Number(v);
};
const iv = (v) => (v instanceof SNum ? v : Number.isInteger(v) && Math.abs(v) <= Number.MAX_SAFE_INTEGER ? { t: T.int(v), lo: v, hi: v } : { t: T.real(v), lo: v, hi: v });
const EPS = 2 ** -53;
// lo and hi are rounded like the result, and rounding is monotone, so the rounded result lies between them
function realRes(t, lo, hi, exact) {
  if (!exact) { const m = Math.max(Math.abs(lo), Math.abs(hi)) * EPS; let e = E.roundings.get(t.id); if (!e) { e = E.fresh("rnd", "Real"); E.roundings.set(t.id, e); E.constrain(T.and(T.le(T.real(-m), e), T.le(e, T.real(m)), T.le(T.real(lo), T.add(t, e)), T.le(T.add(t, e), T.real(hi)))); } t = T.add(t, e); }
  return new SNum(t, lo, hi);
}
const pow2 = (n) => n !== 0 && Number.isFinite(n) && Math.abs(Math.log2(Math.abs(n))) % 1 === 0;
function arith(op, a, b) {
  a = num(a); b = num(b);
  if (!(a instanceof Sym) && !(b instanceof Sym)) return { "+": a + b, "-": a - b, "*": a * b, "/": a / b, "%": a % b, "**": a ** b }[op];
  for (const x of [a, b]) if (typeof x === "number" && (Number.isNaN(x) || !Number.isFinite(x))) { if (Number.isNaN(x)) return NaN; return arithInf(op, a, b); }
  const x = iv(a), y = iv(b); const ints = x.t.sort === "Int" && y.t.sort === "Int";
  switch (op) {
    case "+": { const t = T.add(x.t, y.t), lo = x.lo + y.lo, hi = x.hi + y.hi; return ints ? mkNum(t, lo, hi) : realRes(t, lo, hi, (x.lo === 0 && x.hi === 0) || (y.lo === 0 && y.hi === 0)); }
    case "-": { const t = T.sub(...unify(x.t, y.t)), lo = x.lo - y.hi, hi = x.hi - y.lo; return ints ? mkNum(t, lo, hi) : realRes(t, lo, hi, false); }
    case "*": { const c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi], lo = Math.min(...c), hi = Math.max(...c); const t = T.mul(x.t, y.t); if (ints) return mkNum(t, lo, hi); return realRes(t, lo, hi, (x.lo === x.hi && pow2(x.lo)) || (y.lo === y.hi && pow2(y.lo))); }
    case "/": {
      if (y.lo <= 0 && y.hi >= 0) { if (E.branch(T.eq(...unify(y.t, T.int(0))))) { if (E.branch(T.eq(...unify(x.t, T.int(0))))) return NaN; return E.branch(T.lt(T.int(0), x.t)) ? Infinity : -Infinity; } }
      const c = [x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi].filter(Number.isFinite); const m = Math.max(Math.abs(x.lo), Math.abs(x.hi)); const lo = y.lo > 0 || y.hi < 0 ? Math.min(...c) : -m, hi = y.lo > 0 || y.hi < 0 ? Math.max(...c) : m;
      const r = realRes(T.rdiv(x.t, y.t), lo, hi, y.lo === y.hi && pow2(y.lo)); if (ints) { r.ratio = [x, y]; if (y.lo === y.hi && y.lo > 0 && !pow2(y.lo)) { const q = T.rdiv(x.t, y.t), e = E.roundings.get(q.id); if (e) E.constrain(T.or(T.not(T.eq(T.mod(x.t, y.t), T.int(0))), T.eq(e, T.real(0)))); } } return r;
    }
    case "%": {
      if (y.lo !== y.hi || y.lo <= 0) { if (ints && y.lo > 0 && x.lo >= 0) return mkNum(T.mod(x.t, y.t), 0, y.hi - 1); S.concretizeNote(b, "symbolic modulus"); return arith("%", a, S.concretize(b)); }
      if (ints) { if (x.lo >= 0) return mkNum(T.mod(x.t, y.t), 0, y.lo - 1); return E.branch(T.le(T.int(0), x.t)) ? mkNum(T.mod(x.t, y.t), 0, y.lo - 1) : mkNum(T.neg(T.mod(T.neg(x.t), y.t)), -(y.lo - 1), 0); }
      if (x.lo < 0) { if (!E.branch(T.le(T.real(0), x.t))) return S.concretizeNote(a, "negative real modulus") % S.concretize(b); }
      const Q = T.toReal(T.toInt(T.rdiv(x.t, T.real(y.lo)))); return new SNum(T.sub(x.t, T.mul(T.real(y.lo), Q)), 0, y.lo);
    }
    case "**": return S.concretizeNote(a, "power") ** S.concretizeNote(b, "power");
  }
}
function arithInf(op, a, b) {
  const sa = a instanceof Sym, inf = sa ? b : a;
  if (op === "+") return inf; if (op === "-") return sa ? -inf : inf; if (op === "/" && sa) return 0;
  const v = S.concretizeNote(sa ? a : b, "arithmetic with infinity"); return sa ? { "*": v * inf, "%": v % inf, "**": v ** inf }[op] : { "*": inf * v, "/": inf / v, "%": inf % v, "**": inf ** v }[op];
}
$.add = (a, b) => {
  if (!(a instanceof Sym) && !(b instanceof Sym)) {
    if ((typeof a === "object" && a !== null) || (typeof b === "object" && b !== null)) { if (typeof a !== "number" && typeof b !== "number" && !(a instanceof Date) && !(b instanceof Date)) return S.concat($.str(a), $.str(b)); }
    return a + b;
  }
  if (isStr(a) || isStr(b) || (typeof a === "object" && !isSym(a) && a !== null) || (typeof b === "object" && !isSym(b) && b !== null)) return S.concat($.str(a), $.str(b));
  return arith("+", a, b);
};
$.sub = (a, b) => (a instanceof Sym || b instanceof Sym || a instanceof Date || b instanceof Date ? arith("-", a, b) : a - b);
$.mul = (a, b) => (a instanceof Sym || b instanceof Sym ? arith("*", a, b) : a * b);
$.div = (a, b) => (a instanceof Sym || b instanceof Sym ? arith("/", a, b) : a / b);
$.mod = (a, b) => (a instanceof Sym || b instanceof Sym ? arith("%", a, b) : a % b);
$.pow = (a, b) => (a instanceof Sym || b instanceof Sym ? arith("**", a, b) : a ** b);
$.neg = (a) => (a instanceof Sym ? arith("*", a, -1) : -a);
$.plus = (a) => (a instanceof Sym || (a instanceof Date && a.$ms !== undefined) ? num(a) : +a);
$.num = (a) => (a instanceof Sym ? num(a) : typeof a === "bigint" ? a : +a);
$.inc = (a, d) => (a instanceof Sym ? arith("+", a, d) : typeof a === "bigint" ? a + BigInt(d) : +a + d);
function cmp(a, b, f, strict) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) { if (a instanceof Date && a.$ms !== undefined) a = a.$ms; if (b instanceof Date && b.$ms !== undefined) b = b.$ms; if (!(a instanceof Sym) && !(b instanceof Sym)) return f(a, b); }
  if (isStr(a) && isStr(b)) return null;
  a = num(a); b = num(b);
  if (!(a instanceof Sym) && !(b instanceof Sym)) return f(a, b);
  if (typeof a === "number" && (Number.isNaN(a) || !Number.isFinite(a))) return f(a, 0); if (typeof b === "number" && (Number.isNaN(b) || !Number.isFinite(b))) return f(0, b);
  const x = iv(a), y = iv(b);
  if (strict) { if (x.hi < y.lo) return true; if (x.lo >= y.hi) return false; return mkBool(T.lt(x.t, y.t)); }
  if (x.hi <= y.lo) return true; if (x.lo > y.hi) return false; return mkBool(T.le(x.t, y.t));
}
$.lt = (a, b) => { const r = cmp(a, b, (x, y) => x < y, true); return r === null ? mkBool(S.lessStr(a, b)) : r; };
$.le = (a, b) => { const r = cmp(a, b, (x, y) => x <= y, false); return r === null ? mkBool(T.not(S.lessStr(b, a))) : r; };
$.gt = (a, b) => { const r = cmp(b, a, (y, x) => x > y, true); return r === null ? mkBool(S.lessStr(b, a)) : r; };
$.ge = (a, b) => { const r = cmp(b, a, (y, x) => x >= y, false); return r === null ? mkBool(T.not(S.lessStr(a, b))) : r; };
function toI(v) { // integer part for bit operations
  v = num(v); if (!(v instanceof SNum)) return v | 0 === v ? v : v;
  if (v.isReal) { if (v.lo >= 0) return new SNum(T.toInt(v.t), Math.floor(v.lo), Math.floor(v.hi)); if (E.branch(T.le(T.real(0), v.t))) return new SNum(T.toInt(v.t), 0, Math.floor(v.hi)); return new SNum(T.neg(T.toInt(T.neg(v.t))), Math.ceil(v.lo), 0); }
  return v;
}
function toI32(v) { v = toI(v); if (!(v instanceof SNum)) return v | 0; if (v.lo >= -(2 ** 31) && v.hi < 2 ** 31) return v; const m = T.mod(v.t, T.int(2 ** 32)); return new SNum(T.ite(T.lt(m, T.int(2 ** 31)), m, T.add(m, T.int(-(2 ** 32)))), -(2 ** 31), 2 ** 31 - 1); }
function bits(v, n) { return Array.from({ length: n }, (_, i) => T.mod(T.div(v.t, T.int(2 ** i)), T.int(2))); }
$.bit = (op, a, b) => {
  if (!(a instanceof Sym) && !(b instanceof Sym)) switch (op) { case "|": return a | b; case "&": return a & b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b; }
  a = toI32(a); b = toI32(b);
  if (op === "<<" || op === ">>" || op === ">>>") {
    b = S.forkInt(b) & 31; if (!(a instanceof SNum)) return $.bit(op, a, b);
    if (op === "<<") return toI32(mkNum(T.mul(a.t, T.int(2 ** b)), a.lo * 2 ** b, a.hi * 2 ** b));
    if (op === ">>>" && a.lo < 0) a = new SNum(T.mod(a.t, T.int(2 ** 32)), 0, 2 ** 32 - 1);
    return mkNum(T.div(a.t, T.int(2 ** b)), Math.floor(a.lo / 2 ** b), Math.floor(a.hi / 2 ** b));
  }
  if (op === "|" && (a === 0 || b === 0)) return a === 0 ? b : a;
  const x = iv(a), y = iv(b);
  if (op === "&") for (const [u, v] of [[x, y], [y, x]]) if (v.lo === v.hi && v.lo >= 0 && pow2(v.lo + 1)) return mkNum(T.mod(u.t, T.int(v.lo + 1)), 0, u.lo >= 0 ? Math.min(v.lo, u.hi) : v.lo);
  if (x.lo >= 0 && y.lo >= 0) {
    const n = Math.max(1, Math.floor(Math.log2(Math.max(x.hi, y.hi, 1))) + 1);
    const low = (z) => (z.lo === z.hi ? (z.lo === 0 ? 2 ** 30 : z.lo & -z.lo) : 1);
    if (op !== "&" && ((x.lo === x.hi && low(x) > y.hi) || (y.lo === y.hi && low(y) > x.hi))) return mkNum(T.add(x.t, y.t), x.lo + y.lo, x.hi + y.hi);
    // x is a multiple of 2^k (built by <<) and y < 2^k
    const multOf = (z) => (z.t.op === "*" && z.t.args[1].op === "int" && pow2(z.t.args[1].v) ? z.t.args[1].v : low(z));
    if (op !== "&" && (multOf(x) > y.hi || multOf(y) > x.hi)) return mkNum(T.add(x.t, y.t), x.lo + y.lo, x.hi + y.hi);
    const xb = bits(x, n), yb = bits(y, n); let t = T.int(0);
    for (let i = 0; i < n; i++) { const p = T.eq(xb[i], T.int(1)), q = T.eq(yb[i], T.int(1)); const c = op === "|" ? T.or(p, q) : op === "&" ? T.and(p, q) : T.not(T.eq(p, q)); t = T.add(t, T.ite(c, T.int(2 ** i), T.int(0))); }
    return mkNum(t, 0, 2 ** n - 1);
  }
  return $.bit(op, S.concretizeNote(a, "bit operation"), S.concretizeNote(b, "bit operation"));
};
$.bnot = (a) => (a instanceof Sym ? arith("-", arith("*", toI32(a), -1), 1) : ~a);
// ---------- strings
$.str = (v) => {
  if (isStr(v)) return v;
  if (v instanceof SNum) return S.numToStr(v);
  if (v instanceof SBool) return E.branch(v.t) ? "true" : "false";
  if (v === null || typeof v !== "object") { if (typeof v === "symbol") return `${v}`; return String(v); }
  if (v[Symbol.toPrimitive] && !(v instanceof Date)) return $.str(invoke(v[Symbol.toPrimitive], v, ["string"]));
  const ts = v.toString;
  if (ts === Error.prototype.toString) { const n = v.name === undefined ? "Error" : $.str(v.name), m = v.message === undefined ? "" : $.str(v.message); if (m === "") return n; if (m instanceof SStr && !E.branch(S.truthyStr(m))) return n; return S.concat(n, ": ", m); }
  if (ts === Array.prototype.toString) return joinArr(v, ",");
  if (v instanceof Date && v.$ms !== undefined) return String(new Date(S.concretizeNote(v.$ms, "date text")));
  if (typeof ts === "function" && !isNative(ts)) return $.str(invoke(ts, v, []));
  return String(v);
};
$.tpl = (strs, vals) => { let sym = false; for (const v of vals) if (v !== null && typeof v === "object") { sym = true; break; } if (!sym) { let r = strs[0]; for (let i = 0; i < vals.length; i++) { if (typeof vals[i] === "symbol") throw new TypeError("Cannot convert a Symbol value to a string"); r += vals[i] + strs[i + 1]; } return r; } const out = [strs[0]]; vals.forEach((v, i) => out.push($.str(v), strs[i + 1])); return S.concat(...out); };
function joinArr(a, sep) { const out = []; for (let i = 0; i < a.length; i++) { if (i) out.push(sep); const v = a[i]; if (v !== null && v !== undefined) out.push($.str(v)); } return S.concat("", ...out); }
function toNumber(s) {
  if (typeof s === "string") return Number(s);
  if (s.parts.length === 1 && s.parts[0].k === "ns") return s.parts[0].n;
  const cs = S.chars(s); if (cs.length === 0) return 0;
  if (cs.length <= 15) { let all = true; for (const c of cs) if (!(typeof c === "number" ? c >= 48 && c <= 57 : E.branch(T.and(T.le(T.int(48), c), T.le(c, T.int(57)))))) { all = false; break; } if (all) return digits(cs); }
  return Number(S.concretizeNote(s, "number from text"));
}
function digits(cs) { let t = T.int(0); for (const c of cs) t = T.add(T.mul(t, T.int(10)), T.add(S.ct(c), T.int(-48))); return mkNum(t, 0, 10 ** cs.length - 1); }
const rx = (p) => p instanceof RegExp;
function strMethod(s, k, args) {
  const a0 = args[0];
  const argStr = (v) => (isStr(v) ? v : $.str(v));
  const off = (v) => (v === undefined ? 0 : S.forkInt(v));
  switch (k) {
    case "toString": case "valueOf": return s;
    case "charAt": { const r = S.at(s, off(a0)); return r === undefined ? "" : r; }
    case "at": { let i = off(a0); if (i < 0) { const L = S.forkInt(S.length(s)); i += L; } return S.at(s, i); }
    case "charCodeAt": { const r = S.at(s, off(a0)); if (r === undefined) return NaN; const c = S.chars(r)[0]; return typeof c === "number" ? c : mkNum(c, 0, 65535); }
    case "codePointAt": {
      const i = off(a0); const r = S.at(s, i); if (r === undefined) return undefined; const c = S.chars(r)[0];
      if (typeof c === "number" ? c < 0xd800 || c > 0xdbff : !E.branch(T.and(T.le(T.int(0xd800), c), T.le(c, T.int(0xdbff))))) return typeof c === "number" ? c : mkNum(c, 0, 65535);
      const n = S.at(s, i + 1); if (n === undefined) return typeof c === "number" ? c : mkNum(c, 0, 65535); const d = S.ct(S.chars(n)[0]);
      if (!E.branch(T.and(T.le(T.int(0xdc00), d), T.le(d, T.int(0xdfff))))) return typeof c === "number" ? c : mkNum(c, 0, 65535);
      return mkNum(T.add(T.add(T.mul(T.add(S.ct(c), T.int(-0xd800)), T.int(1024)), T.add(d, T.int(-0xdc00))), T.int(0x10000)), 0x10000, 0x10ffff);
    }
    case "concat": return S.concat(s, ...args.map(argStr));
    case "startsWith": { const n = off(args[1]); return mkBool(S.startsWith(n ? S.dropLeft(s, n) : s, argStr(a0))); }
    case "endsWith": return args[1] === undefined ? mkBool(S.endsWith(s, argStr(a0))) : mkBool(S.endsWith(S.slice(s, 0, args[1]), argStr(a0)));
    case "includes": { const n = off(args[1]); return mkBool(S.includes(n ? S.dropLeft(s, n) : s, argStr(a0))); }
    case "indexOf": return S.indexOf(s, argStr(a0), off(args[1]));
    case "lastIndexOf": return S.lastIndexOf(s, argStr(a0));
    case "slice": return S.slice(s, a0, args[1]);
    case "substring": { let a = Math.max(0, off(a0)); let b = args[1] === undefined ? undefined : Math.max(0, off(args[1])); if (b !== undefined && a > b) [a, b] = [b, a]; return S.slice(s, a, b); }
    case "substr": { const a = off(a0); if (args[1] === undefined) return S.slice(s, a); const n = off(args[1]); if (a < 0) return S.slice(S.slice(s, a), 0, n); return S.slice(s, a, a + n); }
    case "split": if (rx(a0)) return R.split(a0, s, args[1]); return S.split(s, a0 === undefined ? undefined : argStr(a0), args[1]);
    case "replace": case "replaceAll": {
      const f = typeof args[1] === "function" ? (m, groups, pos, str) => $.str(invoke(args[1], undefined, [m, ...groups, pos, str])) : null;
      const rep = f ? null : argStr(args[1]);
      if (rx(a0)) return R.replace(a0, s, rep, f);
      return S.replaceStr(s, argStr(a0), rep, k === "replaceAll", f);
    }
    case "match": { const re = rx(a0) ? a0 : new RegExp(S.concretizeNote(a0, "regex source")); if (re.global) { const l = R.all(re, s).out.map((x) => x.res[0]); return l.length ? l : null; } return R.exec(re, s); }
    case "matchAll": return R.all(a0, s).out.map((x) => x.res)[Symbol.iterator]();
    case "search": { const r = R.exec(new RegExp(a0.source, a0.flags.replace(/[gy]/g, "")), s); return r ? r.index : -1; }
    case "trim": return S.trim(s); case "trimStart": case "trimLeft": return S.trim(s, true, false); case "trimEnd": case "trimRight": return S.trim(s, false, true);
    case "toLowerCase": case "toLocaleLowerCase": return S.mapCase(s, true); case "toUpperCase": case "toLocaleUpperCase": return S.mapCase(s, false);
    case "padStart": return S.pad(s, a0, args[1] === undefined ? " " : args[1], true); case "padEnd": return S.pad(s, a0, args[1] === undefined ? " " : args[1], false);
    case "repeat": { const n = off(a0); if (n < 0) throw new RangeError("Invalid count value: " + n); let r = ""; for (let i = 0; i < n; i++) r = S.concat(r, s); return r; }
    case "localeCompare": { if (E.branch(S.eqStr(s, argStr(a0)))) return 0; return E.branch(S.lessStr(s, argStr(a0))) ? -1 : 1; }
    case "normalize": { // exact below the first character that normalisation can change; beyond it, characters and pairs that do change are tried first
      const cs = S.chars(s), lim = a0 === undefined || a0 === "NFC" ? 0x300 : 0xa0; const nf = (v) => v.normalize(a0);
      if (cs.every((c) => E.branch(T.lt(S.ct(c), T.int(lim))))) return S.fromChars(cs);
      for (let i = 0; i < cs.length; i++) { const c = S.ct(cs[i]); if (E.branch(T.eq(c, T.int(0x212b)))) return nf(S.concretizeNote(S.fromChars(cs), "Unicode normalisation")); if (i && E.branch(T.and(T.and(T.le(T.int(97), S.ct(cs[i - 1])), T.le(S.ct(cs[i - 1]), T.int(101))), T.eq(c, T.int(0x301))))) return nf(S.concretizeNote(S.fromChars(cs), "Unicode normalisation")); }
      return nf(S.concretizeNote(S.fromChars(cs), "Unicode normalisation"));
    }
    case "hasOwnProperty": return S.concretizeNote(s, "hasOwnProperty on string").hasOwnProperty(...args);
    case Symbol.iterator: return iterStr(s)[Symbol.iterator]();
  }
  const c = S.concretizeNote(s, "String.prototype." + String(k));
  return c[k](...args.map((a) => S.concretizeNote(a, "argument of String.prototype." + String(k))));
}
function iterStr(s) { // code points
  const cs = S.chars(s), out = [];
  for (let i = 0; i < cs.length; i++) {
    const c = S.ct(cs[i]);
    if (i + 1 < cs.length && E.branch(T.and(T.le(T.int(0xd800), c), T.le(c, T.int(0xdbff)))) && E.branch(T.and(T.le(T.int(0xdc00), S.ct(cs[i + 1])), T.le(S.ct(cs[i + 1]), T.int(0xdfff))))) { out.push(S.fromChars([cs[i], cs[i + 1]])); i++; } else out.push(S.fromChars([cs[i]]));
  }
  return out;
}
function numMethod(n, k, args) {
  switch (k) { case "toString": return S.numToStr(n, args[0]); case "valueOf": return n; case "toLocaleString": break; }
  const c = S.concretizeNote(n, "Number.prototype." + String(k)); return c[k](...args);
}
// ---------- properties
const OBJ_PROTO = Object.getOwnPropertyNames(Object.prototype);
const isPh = (k) => typeof k === "string" && k.charCodeAt(0) === 0 && k.startsWith(PH);
const hasPh = (o) => { if (E.phCount === 0 || o === null || (typeof o !== "object" && typeof o !== "function")) return false; for (const k of Object.keys(o)) if (isPh(k)) return true; return false; };
const realKey = (k) => (isPh(k) ? E.phKeys.get(k) : k);
function newPh(sym) { for (const [k, v] of E.phKeys) if (S.sameStr(v, sym)) return k; const k = PH + E.phCount++; E.phKeys.set(k, sym); return k; }
// find the own key of o equal to k (string or SStr); undefined if none
function findKey(o, k) {
  if (typeof k === "string" && Object.prototype.hasOwnProperty.call(o, k)) { if (!hasPh(o)) return k; return k; }
  for (const e of Object.getOwnPropertyNames(o)) {
    if (isPh(e)) { if (E.branch(S.eqStr(k, E.phKeys.get(e)))) return e; } else if (k instanceof SStr) { if (E.branch(S.eqStr(k, e))) return e; }
  }
  return undefined;
}
function protoHit(o, k) { // does a symbolic key name an inherited property?
  const p = Object.getPrototypeOf(o); if (!p) return undefined;
  const names = new Set(); for (let q = p; q; q = Object.getPrototypeOf(q)) for (const n of Object.getOwnPropertyNames(q)) names.add(n);
  for (const n of names) if (E.branch(S.eqStr(k, n))) return n; return undefined;
}
function normKey(k) { if (k instanceof SNum) return S.forkInt(k); if (k instanceof SBool) return E.branch(k.t) ? "true" : "false"; return k; }
const isProxy = require("util").types.isProxy; const hasBytes = (o) => o !== null && typeof o === "object" && !isProxy(o) && !!o.$bytes; // a proxy's traps must not see the engine
$.get = (o, k) => {
  if (o instanceof Sym) {
    if (o instanceof SStr) { if (k === "length") return S.length(o); k = normKey(k); if (typeof k === "number") return S.at(o, k); if (typeof k === "string" && /^\d+$/.test(k)) return S.at(o, +k); if (k === Symbol.iterator) return () => iterStr(o)[Symbol.iterator](); if (typeof k === "string" && k in String.prototype) return mkFn((...a) => strMethod(o, k, a)); return undefined; }
    if (o instanceof SNum) return typeof k === "string" && k in Number.prototype ? mkFn((...a) => numMethod(o, k, a)) : undefined;
    return undefined;
  }
  if (k instanceof Sym) {
    if (o === null || o === undefined) throw new TypeError(`Cannot read properties of ${o} (reading 'sym')`);
    k = normKey(k);
    if (k instanceof SStr) { if (typeof o === "string") { k = S.concretizeNote(k, "symbolic key on a string"); return o[k]; } const e = findKey(o, k); if (e !== undefined) return o[e]; const h = protoHit(o, k); return h === undefined ? undefined : o[h]; }
    if (typeof o === "string") return o[k];
  }
  if (E.aborted) E.checkAbort();
  if (E.phCount && typeof k === "string" && o !== null && typeof o === "object" && !Array.isArray(o) && hasPh(o) && !Object.prototype.hasOwnProperty.call(o, k)) { const e = findKey(o, k); if (e !== undefined) return o[e]; }
  if (typeof k === "number" && hasBytes(o)) return o.$bytes[k];
  return o[k];
};
$.set = (o, k, v) => {
  if (E.aborted) E.checkAbort();
  if (o instanceof Sym) return v;
  if (k instanceof Sym) k = normKey(k);
  if (k instanceof SStr) { const e = findKey(o, k); if (e !== undefined) { o[e] = v; return v; } if (Object.getPrototypeOf(o) === Object.prototype && E.branch(S.eqStr(k, "__proto__"))) { o["__proto__"] = v; return v; } o[newPh(k)] = v; return v; }
  if (E.phCount && typeof k === "string" && o !== null && typeof o === "object" && hasPh(o) && !Object.prototype.hasOwnProperty.call(o, k)) { const e = findKey(o, k); if (e !== undefined) { o[e] = v; return v; } }
  if ((typeof k === "number" || (typeof k === "string" && /^\d+$/.test(k))) && hasBytes(o)) { if (+k < o.$bytes.length) o.$bytes[+k] = toByte(v); return v; }
  o[k] = v; return v;
};
const toByte = (v) => (v instanceof SNum ? (v.lo >= 0 && v.hi <= 255 ? v : $.bit("&", v, 255)) : Number(v) & 255);
$.toByte = toByte;
$.del = (o, k) => { if (k instanceof Sym) k = normKey(k); if (k instanceof SStr || (E.phCount && hasPh(o))) { const e = findKey(o, k); if (e !== undefined) return delete o[e]; return true; } return delete o[k]; };
$.in = (k, o) => {
  if (o === null || (typeof o !== "object" && typeof o !== "function") || o instanceof Sym) throw new TypeError(`Cannot use 'in' operator to search for '${isSym(k) ? "sym" : String(k)}' in ${isSym(o) ? "sym" : String(o)}`);
  if (k instanceof Sym) k = normKey(k);
  if (k instanceof SStr && isProxy(o)) k = S.concretizeNote(k, "symbolic key of a proxy");
  if (k instanceof SStr) return findKey(o, k) !== undefined || protoHit(o, k) !== undefined;
  if (k in o) return true; if (E.phCount && hasPh(o)) return findKey(o, k) !== undefined; return false;
};
$.inst = (o, C) => (o instanceof Sym ? false : o instanceof C);
$.upd = (o, k, d, prefix) => { const old = $.num($.get(o, k)); const nv = $.inc(old, d); $.set(o, k, nv); return prefix ? nv : old; };
const ownKeys = (o) => Object.keys(o).map(realKey);
$.obj = (list) => {
  const o = {};
  for (const e of list) {
    if (e[0] === "p") { if (e[1] instanceof Sym) $.set(o, e[1], e[2]); else if (E.phCount && typeof e[1] === "string" && hasPh(o)) $.set(o, e[1], e[2]); else if (e[1] === "__proto__" && e[3]) Object.setPrototypeOf(o, e[2]); else Object.defineProperty(o, e[1], { value: e[2], enumerable: true, configurable: true, writable: true }); }
    else if (e[0] === "s") { const s = e[1]; if (s === null || s === undefined || s instanceof SBool || s instanceof SNum) continue; if (s instanceof SStr) { iterChars(s).forEach((c, i) => (o[i] = c)); continue; } copyProps(o, s); }
    else Object.defineProperties(o, Object.getOwnPropertyDescriptors(e[1]));
  }
  return o;
};
const iterChars = (s) => S.chars(s).map((c) => S.fromChars([c]));
function copyProps(o, s, define = true) {
  if (E.phCount === 0 || (!hasPh(s) && !hasPh(o))) { if (define) for (const k of Reflect.ownKeys(Object(s))) { const d = Object.getOwnPropertyDescriptor(Object(s), k); if (d && d.enumerable) Object.defineProperty(o, k, { value: s[k], enumerable: true, configurable: true, writable: true }); } else Object.assign(o, s); return; }
  for (const k of Object.keys(s)) $.set(o, realKey(k), s[k]);
  for (const k of Object.getOwnPropertySymbols(s)) if (Object.prototype.propertyIsEnumerable.call(s, k)) o[k] = s[k];
}
$.rest = (o, excluded) => { const r = {}; for (const k of Reflect.ownKeys(Object(o))) { if (!Object.prototype.propertyIsEnumerable.call(o, k)) continue; if (isPh(k)) { const s = E.phKeys.get(k); if (excluded.some((x) => typeof x === "string" && E.branch(S.eqStr(s, x)))) continue; } else if (excluded.some((x) => (x instanceof Sym ? E.branch(S.eqStr(x, k)) : (typeof x === "symbol" ? x : String(x)) === k))) continue; r[k] = o[k]; } return r; };
$.iter = (v) => { if (v instanceof SStr) return iterStr(v); if (hasBytes(v)) return v.$bytes; return v; };
$.dsrc = (v) => { if (v instanceof SStr) { const s = v; const w = { get length() { return S.length(s); }, [Symbol.iterator]: () => iterStr(s)[Symbol.iterator]() }; return w; } if (E.phCount && v !== null && typeof v === "object" && hasPh(v)) return new Proxy(v, { get: (t, k) => (typeof k === "string" ? $.get(t, k) : t[k]) }); return v; };
$.forin = (o) => { if (o === null || o === undefined) return []; const r = []; for (const k in o) r.push(realKey(k)); return r; };
$.sw = (x, cases) => { for (let i = 0; i < cases.length; i++) { if (cases[i] === null) continue; const c = cases[i](); if (x instanceof Sym || c instanceof Sym ? E.branch(seqTerm(x, c)) : x === c) return i; } return -1; };
$.caught = (e) => { if (e instanceof E.PathAbort) throw e; if (E.aborted) E.checkAbort(); return e; };
$.fin = () => { if (E.aborted) E.checkAbort(); };
// ---------- calls
const nativeCache = new WeakMap();
const kind = (f) => { let k = nativeCache.get(f); if (k === undefined) { let s; try { s = Function.prototype.toString.call(f); } catch { s = "[native code]"; } k = f.$trusted ? "trusted" : s.includes(MARK) || s.startsWith("class") ? "inst" : /\{\s*\[native code\]\s*\}\s*$/.test(s) ? "native" : "foreign"; nativeCache.set(f, k); } return k; };
const isNative = (f) => kind(f) === "native";
const mkFn = (f) => { f.$trusted = true; return f; };
function invoke(f, thisv, args) {
  if (E.aborted) E.checkAbort();
  if (typeof f !== "function") throw new TypeError(`${describe(f)} is not a function`);
  const m = models.get(f); if (m) return m(thisv, args);
  const k = kind(f);
  if ((k === "native" || k === "foreign") && !safe.has(f) && (args.some(isSym) || isSym(thisv))) { const why = `argument of ${k} function ${f.name || "?"}`; args = args.map((a) => S.concretizeNote(a, why)); thisv = S.concretizeNote(thisv, why); }
  return Reflect.apply(f, thisv, args);
}
const describe = (f) => (isSym(f) ? "symbolic value" : f === null || f === undefined ? String(f) : typeof f);
$.call = (f, args) => { E.tick(); return invoke(f, undefined, args); };
$.callm = (o, k, args) => {
  E.tick();
  if (k instanceof Sym) { k = normKey(k); if (k instanceof SStr) { const f0 = $.get(o, k); return invoke(f0, o, args); } }
  if (o instanceof Sym) { if (o instanceof SStr) { if (!(k in String.prototype)) throw new TypeError(`value.${String(k)} is not a function`); return strMethod(o, k, args); } if (o instanceof SNum) { if (!(k in Number.prototype)) throw new TypeError(`value.${String(k)} is not a function`); return numMethod(o, k, args); } if (k === "toString") return $.str(o); if (k === "valueOf") return o; throw new TypeError(`value.${String(k)} is not a function`); }
  if (typeof o === "string" && k in String.prototype && (args.some(isSym) || ((k === "replace" || k === "replaceAll") && typeof args[1] === "function"))) return strMethod(o, k, args);
  if (o instanceof RegExp && args[0] instanceof SStr) { if (k === "test") return R.test(o, args[0]); if (k === "exec") return R.exec(o, args[0]); if (k === Symbol.replace) return strMethod(args[0], "replace", [o, args[1]]); }
  const f = $.get(o, k);
  if (typeof f !== "function") throw new TypeError(`${typeof k === "string" ? "value." + k : "value"} is not a function`);
  return invoke(f, o, args);
};
const safeCtors = new Set();
const ctorModels = new Map();
$.new = (C, args) => {
  E.tick();
  const m = ctorModels.get(C); if (m) { const r = m(args); if (r !== undefined) return r; }
  if (typeof C === "function" && !safeCtors.has(C)) { const k = kind(C); if ((k === "native" || k === "foreign") && args.some(isSym)) args = args.map((a) => S.concretizeNote(a, "argument of new " + C.name)); }
  return Reflect.construct(C, args);
};
$.superArgs = (a) => a;
// ---------- array models
const AP = Array.prototype;
const cb = (f, th, ...a) => invoke(f, th, a);
const M = (f, g) => { if (typeof f === "function") models.set(f, g); };
M(AP.filter, (a, [f, th]) => { const out = []; for (let i = 0; i < a.length; i++) if (i in a) { const v = a[i]; if ($.t(cb(f, th, v, i, a))) out.push(v); } return out; });
M(AP.some, (a, [f, th]) => { for (let i = 0; i < a.length; i++) if (i in a && $.t(cb(f, th, a[i], i, a))) return true; return false; });
M(AP.every, (a, [f, th]) => { for (let i = 0; i < a.length; i++) if (i in a && !$.t(cb(f, th, a[i], i, a))) return false; return true; });
M(AP.find, (a, [f, th]) => { for (let i = 0; i < a.length; i++) if ($.t(cb(f, th, a[i], i, a))) return a[i]; return undefined; });
M(AP.findIndex, (a, [f, th]) => { for (let i = 0; i < a.length; i++) if ($.t(cb(f, th, a[i], i, a))) return i; return -1; });
M(AP.findLast, (a, [f, th]) => { for (let i = a.length - 1; i >= 0; i--) if ($.t(cb(f, th, a[i], i, a))) return a[i]; return undefined; });
M(AP.findLastIndex, (a, [f, th]) => { for (let i = a.length - 1; i >= 0; i--) if ($.t(cb(f, th, a[i], i, a))) return i; return -1; });
M(AP.indexOf, (a, [x, from]) => { for (let i = from || 0; i < a.length; i++) if (i in a && $.t($.seq(a[i], x))) return i; return -1; });
M(AP.lastIndexOf, (a, [x]) => { for (let i = a.length - 1; i >= 0; i--) if (i in a && $.t($.seq(a[i], x))) return i; return -1; });
M(AP.includes, (a, [x]) => { for (let i = 0; i < a.length; i++) if ($.sameValueZero(a[i], x)) return true; return false; });
M(AP.join, (a, [sep]) => joinArr(a, sep === undefined ? "," : $.str(sep)));
M(AP.toString, (a) => (Array.isArray(a) ? joinArr(a, ",") : Object.prototype.toString.call(a)));
function sortArr(a, f) {
  const v = AP.filter.call(a, () => true).filter((x) => x !== undefined), u = a.length - v.length;
  const less = (x, y) => { if (f) return $.t($.lt(invoke(f, undefined, [x, y]), 0)); const p = $.str(x), q = $.str(y); return $.t($.lt(p, q)); };
  const ms = (l) => { if (l.length < 2) return l; const m = l.length >> 1, p = ms(l.slice(0, m)), q = ms(l.slice(m)), out = []; let i = 0, j = 0; while (i < p.length && j < q.length) out.push(less(q[j], p[i]) ? q[j++] : p[i++]); return [...out, ...p.slice(i), ...q.slice(j)]; };
  const r = ms(v); for (let i = 0; i < u; i++) r.push(undefined); return r;
}
M(AP.sort, (a, [f]) => { const r = sortArr(a, f); for (let i = 0; i < r.length; i++) a[i] = r[i]; return a; });
if (AP.toSorted) M(AP.toSorted, (a, [f]) => sortArr(a, f));
M(AP.at, (a, [i]) => AP.at.call(a, S.forkInt(i)));
M(AP.slice, (a, l) => AP.slice.apply(a, l.map((x) => S.forkInt(x))));
M(AP.splice, (a, l) => AP.splice.apply(a, l.map((x, i) => (i < 2 ? S.forkInt(x) : x))));
M(AP.fill, (a, l) => AP.fill.apply(a, l.map((x, i) => (i ? S.forkInt(x) : x))));
M(Array.from, (_, [src, f, th]) => {
  let list;
  if (src instanceof SStr) list = iterStr(src); else if (hasBytes(src)) list = src.$bytes.slice(); else if (src && typeof src === "object" && src.length instanceof SNum) { const n = S.forkInt(src.length); list = Array.from({ ...src, length: n }); } else list = Array.from(src);
  return f ? list.map((v, i) => invoke(f, th, [v, i])) : list;
});
for (const n of ["push", "unshift", "concat", "pop", "shift", "reverse", "map", "forEach", "reduce", "reduceRight", "flat", "flatMap", "keys", "values", "entries", Symbol.iterator, "with", "toSpliced"]) if (AP[n]) safe.add(AP[n]);
safe.add(Array.isArray); safe.add(Array.of);
M(Array.isArray, (_, [x]) => Array.isArray(x));
// ---------- objects
const plainKeys = (o) => (o instanceof SStr ? iterChars(o).map((_, i) => String(i)) : isSym(o) ? [] : hasBytes(o) ? o.$bytes.map((_, i) => String(i)) : ownKeys(o));
M(Object.keys, (_, [o]) => plainKeys(o));
M(Object.values, (_, [o]) => (o instanceof SStr ? iterChars(o) : isSym(o) ? [] : hasBytes(o) ? o.$bytes.slice() : Object.values(o)));
M(Object.entries, (_, [o]) => (o instanceof SStr ? iterChars(o).map((c, i) => [String(i), c]) : isSym(o) ? [] : hasBytes(o) ? o.$bytes.map((v, i) => [String(i), v]) : Object.keys(o).map((k) => [realKey(k), o[k]])));
M(Object.fromEntries, (_, [it]) => { const o = {}; for (const e of it) { const k = $.get(e, 0), v = $.get(e, 1); const kk = typeof k === "symbol" || k instanceof Sym ? k : String(k); if (kk instanceof Sym || (E.phCount && hasPh(o))) $.set(o, kk instanceof SNum ? S.numToStr(kk) : kk, v); else Object.defineProperty(o, kk, { value: v, enumerable: true, configurable: true, writable: true }); } return o; });
M(Object.assign, (_, [t, ...ss]) => { for (const s of ss) { if (s === null || s === undefined || s instanceof SBool || s instanceof SNum) continue; if (s instanceof SStr) { iterChars(s).forEach((c, i) => (t[i] = c)); continue; } if (t && t.$bytes) continue; copyProps(t, s, false); } return t; });
M(Object.getOwnPropertyNames, (_, [o]) => Object.getOwnPropertyNames(o).map(realKey));
const hasOwn = (o, k) => { if (k instanceof Sym) k = normKey(k); if (k instanceof SStr) { if (typeof o === "string" || o instanceof SStr) return false; return findKey(o, k) !== undefined; } if (o instanceof SStr) return k === "length" || (Number.isInteger(+k) && S.at(o, +k) !== undefined); if (isSym(o)) return false; if (Object.prototype.hasOwnProperty.call(o, k)) return true; return E.phCount && hasPh(o) && typeof k === "string" ? findKey(o, k) !== undefined : false; };
M(Object.prototype.hasOwnProperty, (o, [k]) => hasOwn(o, k)); if (Object.hasOwn) M(Object.hasOwn, (_, [o, k]) => hasOwn(o, k));
M(Object.prototype.propertyIsEnumerable, (o, [k]) => (k instanceof Sym ? hasOwn(o, k) : Object.prototype.propertyIsEnumerable.call(o, k)));
M(Object.is, (_, [a, b]) => (isSym(a) || isSym(b) ? $.seq(a, b) : Object.is(a, b)));
M(Object.prototype.toString, (o) => (isSym(o) ? { boolean: "[object Boolean]", number: "[object Number]", string: "[object String]" }[$.tof(o)] : Object.prototype.toString.call(o)));
M(Object.freeze, (_, [o]) => Object.freeze(o)); M(Object.getPrototypeOf, (_, [o]) => (isSym(o) ? Object.getPrototypeOf(Object({ boolean: true, number: 1, string: "" }[$.tof(o)])) : Object.getPrototypeOf(o)));
M(Object.defineProperty, (_, [o, k, d]) => { if (k instanceof Sym) { $.set(o, k, d.value); return o; } return Object.defineProperty(o, k, d); });
M(Object, (_, [v]) => v);
M(Reflect.get, (_, a) => (a[1] instanceof Sym ? $.get(a[0], a[1]) : Reflect.get(...a))); M(Reflect.has, (_, [o, k]) => $.in(k, o)); M(Reflect.apply, (_, [f, t, a]) => invoke(f, t, AP.slice.call(a))); M(Reflect.ownKeys, (_, [o]) => Reflect.ownKeys(o).map(realKey)); M(Reflect.set, (_, a) => (a[1] instanceof Sym ? ($.set(...a), true) : Reflect.set(...a))); M(Reflect.construct, (_, [C, a, n]) => (n ? Reflect.construct(C, a, n) : $.new(C, AP.slice.call(a))));
M(Function.prototype.call, (f, [t, ...a]) => (typeof t === "string" || isSym(t) || rx(t) ? callProto(f, t, a) : invoke(f, t, a)));
M(Function.prototype.apply, (f, [t, a]) => { const l = a === null || a === undefined ? [] : AP.slice.call(a); return typeof t === "string" || isSym(t) || rx(t) ? callProto(f, t, l) : invoke(f, t, l); });
function callProto(f, t, a) { for (const [P] of [[String.prototype], [Number.prototype], [RegExp.prototype]]) if (P[f.name] === f) return $.callm(t, f.name, a); return invoke(f, t, a); }
M(Function.prototype.bind, (f, [t, ...a]) => { const b = function (...r) { return new.target ? $.new(f, [...a, ...r]) : invoke(f, t, [...a, ...r]); }; Object.defineProperty(b, "name", { value: "bound " + f.name }); b.$trusted = true; return b; });
// ---------- String / Number / Math
M(String, (_, a) => (a.length ? $.str(a[0]) : ""));
M(String.fromCharCode, (_, a) => mkStr(a.map((c) => { c = num(c); return c instanceof SNum ? S.chr(c.lo >= 0 && c.hi <= 65535 ? c.t : T.mod(c.t, T.int(65536))) : S.lit(String.fromCharCode(c)); })));
M(String.fromCodePoint, (_, a) => mkStr(a.map((c) => { if (!(c instanceof SNum)) return S.lit(String.fromCodePoint(c)); if (c.hi <= 65535 || E.branch(T.le(c.t, T.int(65535)))) return S.chr(c.t); return S.lit(String.fromCodePoint(S.concretizeNote(c, "astral code point"))); })));
M(Number, (_, [v]) => (isSym(v) || (v instanceof Date && v.$ms !== undefined) ? num(v) : Number(v)));
M(Boolean, (_, [v]) => (isSym(v) ? mkBool(truth(v)) : Boolean(v)));
M(Number.isInteger, (_, [v]) => (v instanceof SNum ? (v.isReal ? mkBool(T.eq(v.t, T.toReal(T.toInt(v.t)))) : true) : isSym(v) ? false : Number.isInteger(v)));
M(Number.isSafeInteger, (_, [v]) => (v instanceof SNum ? !v.isReal : isSym(v) ? false : Number.isSafeInteger(v)));
M(Number.isFinite, (_, [v]) => (v instanceof SNum ? true : isSym(v) ? false : Number.isFinite(v))); M(Number.isNaN, (_, [v]) => (isSym(v) ? false : Number.isNaN(v)));
M(isNaN, (_, [v]) => (v instanceof Date && v.$ms !== undefined ? false : isSym(v) ? Number.isNaN(num(v)) : isNaN(v))); M(isFinite, (_, [v]) => (isSym(v) ? (num(v) instanceof SNum ? true : isFinite(num(v))) : isFinite(v)));
function pInt(s, radix) {
  if (!isSym(s)) return parseInt(s, S.forkInt(radix)); if (s instanceof SNum) return s.isReal ? toI(s) : s; if (s instanceof SBool) return NaN;
  if (radix !== undefined && radix !== 10 && radix !== 0) return parseInt(S.concretizeNote(s, "parseInt radix"), radix);
  if (s.parts.length === 1 && s.parts[0].k === "ns") return s.parts[0].n;
  const cs = S.chars(s); let i = 0; while (i < cs.length && E.branch(S.isWs(cs[i]))) i++;
  let sign = 1; const is = (c, k) => (typeof c === "number" ? c === k : E.branch(T.eq(c, T.int(k))));
  if (i < cs.length && is(cs[i], 45)) { sign = -1; i++; } else if (i < cs.length && is(cs[i], 43)) i++;
  const st = i; while (i < cs.length && (typeof cs[i] === "number" ? cs[i] >= 48 && cs[i] <= 57 : E.branch(T.and(T.le(T.int(48), cs[i]), T.le(cs[i], T.int(57)))))) i++;
  if (i === st) return NaN;
  if (i === st + 1 && i < cs.length && radix === undefined && is(cs[st], 48) && (is(cs[i], 120) || is(cs[i], 88))) return parseInt(S.concretizeNote(s, "hex parseInt"));
  const v = digits(cs.slice(st, i)); return sign === 1 ? v : arith("*", v, -1);
}
M(parseInt, (_, [s, r]) => pInt(s, r)); M(Number.parseInt, (_, [s, r]) => pInt(s, r));
M(parseFloat, (_, [s]) => (s instanceof SNum ? s : isSym(s) ? parseFloat(S.concretizeNote(s, "parseFloat")) : parseFloat(s)));
function mathF(name, f) { M(Math[name], (_, a) => (a.some(isSym) ? f(...a.map(num)) : Math[name](...a))); }
const floor = (v) => { if (!(v instanceof SNum)) return Math.floor(v); if (v.ratio && v.ratio[1].lo > 0) return mkNum(T.div(v.ratio[0].t, v.ratio[1].t), Math.floor(v.lo), Math.floor(v.hi)); return v.isReal ? mkNum(T.toInt(v.t), Math.floor(v.lo), Math.floor(v.hi)) : v; };
mathF("floor", floor); mathF("ceil", (v) => { if (!(v instanceof SNum)) return Math.ceil(v); if (!v.isReal) return v; return mkNum(T.neg(v.ratio && v.ratio[1].lo > 0 ? T.div(T.neg(v.ratio[0].t), v.ratio[1].t) : T.toInt(T.neg(v.t))), Math.ceil(v.lo), Math.ceil(v.hi)); });
mathF("trunc", (v) => toI(v)); mathF("round", (v) => (v instanceof SNum && !v.isReal ? v : floor(arith("+", v, 0.5))));
mathF("abs", (v) => (v instanceof SNum ? mkNum(T.ite(T.le(T.int(0), v.t), v.t, T.neg(v.t)), v.lo > 0 ? v.lo : 0, Math.max(Math.abs(v.lo), Math.abs(v.hi))) : Math.abs(v)));
mathF("sign", (v) => (v instanceof SNum ? (E.branch(T.lt(T.int(0), v.t)) ? 1 : E.branch(T.eq(...unify(v.t, T.int(0)))) ? 0 : -1) : Math.sign(v)));
const mm = (mx) => (...a) => { let r = a[0]; for (const x of a.slice(1)) { if (!(r instanceof SNum) && !(x instanceof SNum)) { r = mx ? Math.max(r, x) : Math.min(r, x); continue; } if (Number.isNaN(r) || Number.isNaN(x)) return NaN; if (r === -Infinity) { r = mx ? x : r; continue; } if (r === Infinity) { r = mx ? r : x; continue; } if (x === Infinity || x === -Infinity) { r = (x > 0) === mx ? x : r; continue; } const p = iv(r), q = iv(x); const c = mx ? T.le(q.t, p.t) : T.le(p.t, q.t); r = mkNum(T.ite(c, p.t, q.t), mx ? Math.max(p.lo, q.lo) : Math.min(p.lo, q.lo), mx ? Math.max(p.hi, q.hi) : Math.min(p.hi, q.hi)); } return r; };
mathF("max", mm(true)); mathF("min", mm(false)); M(Math.max, (_, a) => (a.length ? mm(true)(...a.map(num)) : -Infinity)); M(Math.min, (_, a) => (a.length ? mm(false)(...a.map(num)) : Infinity));
mathF("pow", (a, b) => { if (a === 2 && b instanceof SNum) return 2 ** S.forkInt(b); return S.concretizeNote(a, "pow") ** S.concretizeNote(b, "pow"); });
// ---------- URI encoding
const unres = (c, extra) => T.or(T.and(T.le(T.int(48), c), T.le(c, T.int(57))), T.and(T.le(T.int(65), c), T.le(c, T.int(90))), T.and(T.le(T.int(97), c), T.le(c, T.int(122))), ...[..."-_.!~*'()" + extra].map((x) => T.eq(c, T.int(x.charCodeAt(0)))));
const hexd = (t) => S.chr(T.ite(T.lt(t, T.int(10)), T.add(t, T.int(48)), T.add(t, T.int(55))));
const pct = (t) => [S.lit("%"), hexd(T.div(t, T.int(16))), hexd(T.mod(t, T.int(16)))];
const u8groups = new Map(); const gkey = (l) => l.map((x) => (typeof x === "number" ? "n" + x : x.id)).join(",");
function utf8(cs) { let lastUnits = null; // number|Term units -> list of byte terms/numbers (well-formed surrogate pairs; throws on lone)
  const out = []; const lt = (c, k) => (typeof c === "number" ? c < k : E.branch(T.lt(c, T.int(k))));
  let from = 0; const note = (units) => { u8groups.set(gkey(out.slice(from)), units); };
  for (let i = 0; i < cs.length; i++) {
    const c = cs[i];
    if (from < out.length && lastUnits) note(lastUnits); from = out.length; lastUnits = [c];
    if (lt(c, 0x80)) { out.push(c); lastUnits = null; continue; }
    const t = S.ct(c), b = (x) => (x.op === "int" ? x.v : x);
    if (lt(c, 0x800)) { out.push(b(T.add(T.int(0xc0), T.div(t, T.int(64)))), b(T.add(T.int(0x80), T.mod(t, T.int(64))))); continue; }
    if (lt(c, 0xd800) || !lt(c, 0xe000)) { out.push(b(T.add(T.int(0xe0), T.div(t, T.int(4096)))), b(T.add(T.int(0x80), T.mod(T.div(t, T.int(64)), T.int(64)))), b(T.add(T.int(0x80), T.mod(t, T.int(64))))); continue; }
    if (lt(c, 0xdc00) && i + 1 < cs.length && !lt(cs[i + 1], 0xdc00) && lt(cs[i + 1], 0xe000)) {
      lastUnits = [c, cs[i + 1]]; const d = S.ct(cs[++i]); const p = T.add(T.add(T.mul(T.add(t, T.int(-0xd800)), T.int(1024)), T.add(d, T.int(-0xdc00))), T.int(0x10000));
      out.push(b(T.add(T.int(0xf0), T.div(p, T.int(262144)))), b(T.add(T.int(0x80), T.mod(T.div(p, T.int(4096)), T.int(64)))), b(T.add(T.int(0x80), T.mod(T.div(p, T.int(64)), T.int(64)))), b(T.add(T.int(0x80), T.mod(p, T.int(64))))); continue;
    }
    out.push({ lone: true }); lastUnits = null;
  }
  if (from < out.length && lastUnits) note(lastUnits);
  return out;
}
$.utf8 = utf8;
function encURI(s, extra) {
  s = $.str(s); if (typeof s === "string") return extra ? encodeURI(s) : encodeURIComponent(s);
  const cs = S.chars(s), out = [];
  for (let i = 0; i < cs.length; i++) {
    const c = cs[i]; if (typeof c === "number" && c < 128) { out.push(S.lit(extra ? encodeURI(String.fromCharCode(c)) : encodeURIComponent(String.fromCharCode(c)))); continue; }
    if (typeof c !== "number" && E.branch(unres(c, extra))) { out.push(S.chr(c)); continue; }
    const isHi = typeof c === "number" ? c >= 0xd800 && c <= 0xdbff : E.branch(T.and(T.le(T.int(0xd800), c), T.le(c, T.int(0xdbff))));
    const bytes = utf8(isHi && i + 1 < cs.length ? [c, cs[i + 1]] : [c]);
    if (bytes.some((b) => b.lone)) throw new URIError("URI malformed");
    if (isHi) i++;
    for (const b of bytes) out.push(...(typeof b === "number" ? [S.lit("%" + b.toString(16).toUpperCase().padStart(2, "0"))] : pct(b)));
  }
  return mkStr(out);
}
M(encodeURIComponent, (_, [s]) => encURI(s, "")); M(encodeURI, (_, [s]) => encURI(s, ";/?:@&=+$,#"));
const hexv = (c) => T.ite(T.le(c, T.int(57)), T.add(c, T.int(-48)), T.ite(T.le(c, T.int(70)), T.add(c, T.int(-55)), T.add(c, T.int(-87))));
const isHex = (c) => T.or(T.and(T.le(T.int(48), c), T.le(c, T.int(57))), T.and(T.le(T.int(65), c), T.le(c, T.int(70))), T.and(T.le(T.int(97), c), T.le(c, T.int(102))));
function utf8dec(bytes, fatal) { // number|Term -> units
  const out = []; const b = (x) => (typeof x === "number" ? T.int(x) : x), lt = (c, k) => (typeof c === "number" ? c < k : E.branch(T.lt(c, T.int(k)))); const un = (t) => (t.op === "int" ? t.v : t);
  for (let i = 0; i < bytes.length; i++) {
    const c = bytes[i]; let hit = null; for (const n of [2, 3, 4]) if (!hit && i + n <= bytes.length && bytes.slice(i, i + n).some((x) => typeof x !== "number")) { hit = u8groups.get(gkey(bytes.slice(i, i + n))); if (hit) i += n - 1; } if (hit) { out.push(...hit); continue; }
    if (lt(c, 0x80)) { out.push(c); continue; }
    const cont = (k) => i + k < bytes.length && !lt(bytes[i + k], 0x80) && lt(bytes[i + k], 0xc0); const cv = (k) => T.add(b(bytes[i + k]), T.int(-0x80));
    if (!lt(c, 0xc2) && lt(c, 0xe0) && cont(1)) { out.push(un(T.add(T.mul(T.add(b(c), T.int(-0xc0)), T.int(64)), cv(1)))); i++; continue; }
    if (!lt(c, 0xe0) && lt(c, 0xf0) && cont(1) && cont(2)) { const u = T.add(T.add(T.mul(T.add(b(c), T.int(-0xe0)), T.int(4096)), T.mul(cv(1), T.int(64))), cv(2)); if (E.branch(T.and(T.le(T.int(0x800), u), T.or(T.lt(u, T.int(0xd800)), T.lt(T.int(0xdfff), u))))) { out.push(un(u)); i += 2; continue; } }
    if (!lt(c, 0xf0) && lt(c, 0xf5) && cont(1) && cont(2) && cont(3)) { const u = T.add(T.add(T.add(T.mul(T.add(b(c), T.int(-0xf0)), T.int(262144)), T.mul(cv(1), T.int(4096))), T.mul(cv(2), T.int(64))), cv(3)); if (E.branch(T.and(T.le(T.int(0x10000), u), T.le(u, T.int(0x10ffff))))) { const v = T.add(u, T.int(-0x10000)); out.push(un(T.add(T.int(0xd800), T.div(v, T.int(1024)))), un(T.add(T.int(0xdc00), T.mod(v, T.int(1024))))); i += 3; continue; } }
    if (fatal) return null; E.note("malformed UTF-8 decoded"); E.abort("incomplete", "malformed UTF-8");
  }
  return out;
}
$.utf8dec = utf8dec;
M(decodeURIComponent, (_, [s]) => {
  s = $.str(s); if (typeof s === "string") return decodeURIComponent(s);
  const cs = S.chars(s); const units = []; let run = []; const flush = () => { if (run.length) { const u = utf8dec(run, true); if (!u) throw new URIError("URI malformed"); units.push(...u); run = []; } };
  for (let i = 0; i < cs.length; i++) { const c = cs[i]; if (!(typeof c === "number" ? c === 37 : E.branch(T.eq(c, T.int(37))))) { flush(); units.push(c); continue; } if (i + 2 >= cs.length || !E.branch(T.and(isHex(S.ct(cs[i + 1])), isHex(S.ct(cs[i + 2]))))) throw new URIError("URI malformed"); const v = T.add(T.mul(hexv(S.ct(cs[i + 1])), T.int(16)), hexv(S.ct(cs[i + 2]))); run.push(v.op === "int" ? v.v : v); i += 2; }
  flush(); return S.fromChars(units);
});
// ---------- JSON
function hasSymDeep(v, seen = new Set()) {
  if (v instanceof Sym) return true; if (v === null || typeof v !== "object") return false; if (seen.has(v)) return false; seen.add(v);
  if (v.$bytes || (v instanceof Date && v.$ms !== undefined)) return true;
  for (const k of Object.keys(v)) { if (isPh(k)) return true; const d = Object.getOwnPropertyDescriptor(v, k); if (d && "value" in d ? hasSymDeep(d.value, seen) : true) { if (!(d && "value" in d)) return true; return true; } }
  if (typeof v.toJSON === "function" && !(v instanceof Date)) return true;
  return false;
}
$.hasSymDeep = hasSymDeep;
$.jsonStringify = (v, replacer, indent) => {
  if (!hasSymDeep(v) && typeof replacer !== "function") return JSON.stringify(v, replacer, indent);
  const stack = []; const gap = typeof indent === "number" ? " ".repeat(Math.min(10, indent)) : typeof indent === "string" ? indent.slice(0, 10) : "";
  const ser = (holder, key, v, ind) => {
    if (v !== null && typeof v === "object" && !isSym(v) && typeof v.toJSON === "function") { if (v instanceof Date) { v = v.$ms !== undefined ? isoStr(v.$ms) : v.toJSON(); } else v = invoke(v.toJSON, v, [key]); }
    if (typeof replacer === "function") v = invoke(replacer, holder, [key, v]);
    if (v === null) return "null"; if (v instanceof SBool) return E.branch(v.t) ? "true" : "false"; if (v === true) return "true"; if (v === false) return "false";
    if (typeof v === "string") return JSON.stringify(v); if (v instanceof SStr) return mkStr([{ k: "jq", s: v }]);
    if (v instanceof SNum) return S.numToStr(v); if (typeof v === "number") return JSON.stringify(v);
    if (typeof v === "bigint") throw new TypeError("Do not know how to serialize a BigInt");
    if (typeof v === "object") {
      if (stack.includes(v)) throw new TypeError("Converting circular structure to JSON"); stack.push(v);
      const ni = ind + gap, sep = gap ? ",\n" + ni : ","; let r;
      if (v.$bytes) { const items = v.$bytes.map((x, i) => S.concat(`"${i}":` + (gap ? " " : ""), $.str(x))); r = wrap("{", "}", items, ni, ind, sep); }
      else if (Array.isArray(v)) { const items = []; for (let i = 0; i < v.length; i++) { const x = ser(v, String(i), v[i], ni); items.push(x === undefined ? "null" : x); } r = wrap("[", "]", items, ni, ind, sep); }
      else { const items = []; let keys = Object.keys(v); if (Array.isArray(replacer)) keys = keys.filter((k) => replacer.includes(k)); for (const k of keys) { const rk = realKey(k); const x = ser(v, rk, v[k], ni); if (x !== undefined) items.push(S.concat(rk instanceof SStr ? mkStr([{ k: "jq", s: rk }]) : JSON.stringify(rk), gap ? ": " : ":", x)); } r = wrap("{", "}", items, ni, ind, sep); }
      stack.pop(); return r;
    }
    return undefined;
  };
  const wrap = (o, c, items, ni, ind, sep) => { if (!items.length) return o + c; const out = [o + (gap ? "\n" + ni : "")]; items.forEach((x, i) => { if (i) out.push(sep); out.push(x); }); out.push((gap ? "\n" + ind : "") + c); return S.concat(...out); };
  return ser({ "": v }, "", v, "");
};
const isoStr = (ms) => (ms instanceof SNum ? mkStr([{ k: "iso", ms }]) : new Date(ms).toISOString());
$.isoStr = isoStr;
M(JSON.stringify, (_, [v, r, i]) => $.jsonStringify(v, r, i));
$.jsonParse = (s) => {
  if (typeof s === "string") return JSON.parse(s);
  // token stream over the rope: quoted parts stay whole
  let q = []; for (const p of S.partsOf(s)) { if (p.k === "lit") for (const c of p.s.split("")) q.push(c.charCodeAt(0)); else if (p.k === "chr") q.push(p.t); else if (p.k === "jq" || p.k === "ns") q.push(p); else for (const x of S.partsOf(mkStr(S.explodePart(p)))) if (x.k === "lit") for (const c of x.s.split("")) q.push(c.charCodeAt(0)); else q.push(x.t); }
  let i = 0; const bad = () => { throw new SyntaxError("Unexpected token in JSON"); };
  const is = (k) => { if (i >= q.length) return false; const c = q[i]; if (typeof c === "number") return c === k; if (c instanceof T.Term) return E.branch(T.eq(c, T.int(k))); if (k === 34 && c.k === "jq") return false; if (c.k === "ns" && ((k >= 48 && k <= 57) || k === 45)) { expandAt(); return is(k); } return false; };
  const expandAt = () => { const c = q[i]; const e = S.partsOf(mkStr(S.explodePart(c))).flatMap((x) => (x.k === "lit" ? [...x.s].map((y) => y.charCodeAt(0)) : [x.t])); q.splice(i, 1, ...e); };
  const ws = () => { while (i < q.length && (typeof q[i] === "number" || q[i] instanceof T.Term) && (is(32) || is(10) || is(13) || is(9))) i++; };
  const word = (w) => { for (const c of w) { if (!is(c.charCodeAt(0))) bad(); i++; } };
  const isDigit = () => { if (i >= q.length) return false; const c = q[i]; if (typeof c === "number") return c >= 48 && c <= 57; if (c instanceof T.Term) return E.branch(T.and(T.le(T.int(48), c), T.le(c, T.int(57)))); return false; };
  const strv = () => {
    if (i < q.length && q[i].k === "jq") return q[i++].s;
    if (!is(34)) bad(); i++; const out = [];
    for (;;) {
      if (i >= q.length) bad(); if (q[i].k) { expandAt(); continue; }
      if (is(34)) { i++; return mkStr(out); }
      if (is(92)) {
        i++; if (i >= q.length) bad(); if (q[i].k) expandAt();
        let hit = false; for (const [k, v] of [[34, '"'], [92, "\\"], [47, "/"], [98, "\b"], [102, "\f"], [110, "\n"], [114, "\r"], [116, "\t"]]) if (is(k)) { out.push(S.lit(v)); i++; hit = true; break; }
        if (hit) continue; if (!is(117)) bad(); i++;
        let t = T.int(0); for (let k = 0; k < 4; k++) { if (i >= q.length || q[i].k) bad(); const c = S.ct(q[i]); if (!E.branch(isHex(c))) bad(); t = T.add(T.mul(t, T.int(16)), hexv(c)); i++; } out.push(S.chr(t)); continue;
      }
      const c = q[i]; if (typeof c === "number" ? c < 32 : E.branch(T.lt(c, T.int(32)))) bad(); out.push(typeof c === "number" ? S.lit(String.fromCharCode(c)) : S.chr(c)); i++;
    }
  };
  const val = () => {
    ws(); if (i >= q.length) bad(); const c = q[i];
    if (c.k === "jq") return strv();
    if (c.k === "ns") { const nx = q[i + 1]; if (nx === undefined || (typeof nx === "number" && ![46, 101, 69].includes(nx) && !(nx >= 48 && nx <= 57))) { i++; return c.n; } expandAt(); return val(); }
    if (is(34)) return strv();
    if (is(123)) { i++; const o = {}; ws(); if (is(125)) { i++; return o; } for (;;) { ws(); const k = strv(); ws(); if (!is(58)) bad(); i++; const v = val(); if (k instanceof Sym || (E.phCount && hasPh(o))) $.set(o, k, v); else Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true }); ws(); if (is(44)) { i++; continue; } if (is(125)) { i++; return o; } bad(); } }
    if (is(91)) { i++; const a = []; ws(); if (is(93)) { i++; return a; } for (;;) { a.push(val()); ws(); if (is(44)) { i++; continue; } if (is(93)) { i++; return a; } bad(); } }
    if (is(116)) { word("true"); return true; } if (is(102)) { word("false"); return false; } if (is(110)) { word("null"); return null; }
    let neg = false; if (is(45)) { neg = true; i++; }
    const st = i; if (!isDigit()) bad(); if (is(48)) { i++; } else while (isDigit()) i++;
    const ds = q.slice(st, i); if (is(46) || is(101) || is(69)) { const start = neg ? st - 1 : st; if (is(46)) { i++; if (!isDigit()) bad(); while (isDigit()) i++; } if (is(101) || is(69)) { i++; if (is(43) || is(45)) i++; if (!isDigit()) bad(); while (isDigit()) i++; } const txt = S.concretizeNote(S.fromChars(q.slice(start, i)), "JSON fraction"); return Number(txt); }
    const n = digits(ds); return neg ? (isSym(n) ? arith("*", n, -1) : -n) : n;
  };
  const v = val(); ws(); if (i < q.length) bad(); return v;
};
M(JSON.parse, (_, [s, rev]) => { s = $.str(s); if (rev) s = S.concretizeNote(s, "JSON reviver"); return rev ? JSON.parse(s, rev) : $.jsonParse(s); });
M(structuredClone, (_, [v]) => { const seen = new Map(); const go = (v) => { if (isSym(v) || v === null || typeof v !== "object") { if (typeof v === "function") throw new DOMException("could not be cloned", "DataCloneError"); return v; } if (seen.has(v)) return seen.get(v); if (!hasSymDeep(v)) return structuredClone(v); const r = Array.isArray(v) ? [] : {}; seen.set(v, r); for (const k of Object.keys(v)) r[k] = go(v[k]); return r; }; return go(v); });
// ---------- things that only pass values through
for (const f of [Promise.resolve, Promise.reject, Promise.all, Promise.allSettled, Promise.race, Promise.any, Promise.prototype.then, Promise.prototype.catch, Promise.prototype.finally, WeakMap.prototype.get, WeakMap.prototype.set, WeakMap.prototype.has, WeakMap.prototype.delete, WeakSet.prototype.has, WeakSet.prototype.add, Map.prototype.forEach, Set.prototype.forEach, Reflect.getPrototypeOf, Object.create, Object.getOwnPropertySymbols, Object.setPrototypeOf, Object.getOwnPropertyDescriptor]) if (f) safe.add(f);
{ const g = (function* () {})(); safe.add(Object.getPrototypeOf(Object.getPrototypeOf(g)).next); safe.add(Object.getPrototypeOf(Object.getPrototypeOf(g)).return); safe.add(Object.getPrototypeOf(Object.getPrototypeOf(g)).throw); const ag = (async function* () {})(); const P = Object.getPrototypeOf(Object.getPrototypeOf(ag)); for (const n of ["next", "return", "throw"]) safe.add(P[n]); }
try { const { AsyncLocalStorage } = require("async_hooks"); safe.add(AsyncLocalStorage.prototype.run); safe.add(AsyncLocalStorage.prototype.getStore); safe.add(AsyncLocalStorage.prototype.exit); } catch {}
M(Symbol.for, (_, [k]) => Symbol.for(S.concretizeNote(k, "symbol key")));
M(Symbol, (_, [k]) => (isSym(k) ? Symbol("sym") : Symbol(k)));
for (const C of [Promise, Proxy, WeakMap, WeakSet]) safeCtors.add(C);
// the two functions a promise executor gets only pass their value on
ctorModels.set(Promise, ([f]) => (typeof f !== "function" ? undefined : new Promise((res, rej) => { nativeCache.set(res, "trusted"); nativeCache.set(rej, "trusted"); return invoke(f, undefined, [res, rej]); })));
M(Error.prototype.toString, (e) => { const n = e.name === undefined ? "Error" : e.name, m = e.message === undefined ? "" : e.message; if (!isSym(n) && !isSym(m)) return Error.prototype.toString.call(e); const ms = $.str(m); return $.t($.seq(ms, "")) ? n : S.concat($.str(n), ": ", ms); });
if (AP.toSorted) { M(AP.toSorted, (a, args) => models.get(AP.sort) ? models.get(AP.sort)([...a], args) : [...a].sort(...args)); }
ctorModels.set(Array, (args) => (args.length === 1 && args[0] instanceof SNum ? new Array(S.forkInt(args[0])) : undefined));
ctorModels.set(RegExp, (args) => (args[0] instanceof SStr ? new RegExp(S.concretizeNote(args[0], "regex source"), args[1]) : undefined));
$.fn = (id) => { E.functions.set(id, (E.functions.get(id) || 0) + 1); if (E.aborted) E.checkAbort(); };
$.models = models; $.safe = safe; $.safeCtors = safeCtors; $.ctorModels = ctorModels; $.invoke = invoke; $.trust = mkFn; $.truth = truth; $.PH = PH; $.numOf = num; $.seqTerm = seqTerm; $.iv = iv; $.MARK = MARK; $.strMethod = strMethod; $.joinArr = joinArr;
module.exports = $;
