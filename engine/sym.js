"use strict";
// Symbolic values: booleans, numbers (Int/Real terms), strings (ropes).
const T = require("./terms.js");
const E = require("./state.js");
class Sym {}
class SBool extends Sym { constructor(t) { super(); this.t = t; } }
class SNum extends Sym { constructor(t, lo, hi) { super(); this.t = t; this.lo = lo; this.hi = hi; } get isReal() { return this.t.sort === "Real"; } }
class SStr extends Sym { constructor(parts) { super(); this.parts = parts; } }
// last resort when native code coerces a symbolic value
for (const C of [SBool, SNum, SStr]) {
  C.prototype.toString = function () { E.note("native coercion of a symbolic value"); return String(concretize(this)); };
  C.prototype.valueOf = function () { E.note("native coercion of a symbolic value"); return concretize(this); };
  C.prototype.toJSON = C.prototype.valueOf;
}
const isSym = (v) => v instanceof Sym;
const MAXS = Number.MAX_SAFE_INTEGER;
function mkBool(t) { if (t === T.TRUE) return true; if (t === T.FALSE) return false; return new SBool(t); }
function mkNum(t, lo, hi) {
  if (t.op === "int") return t.v;
  if (t.sort === "Int" && (lo < -MAXS || hi > MAXS)) { E.note("integer may leave the safe range"); lo = Math.max(lo, -MAXS); hi = Math.min(hi, MAXS); E.constrain(T.and(T.le(T.int(lo), t), T.le(t, T.int(hi)))); }
  return new SNum(t, lo, hi);
}
const lit = (s) => ({ k: "lit", s });
const chr = (t) => (t.op === "int" ? lit(String.fromCharCode(t.v)) : { k: "chr", t });
function mkStr(parts) {
  const out = [];
  for (let p of parts) {
    if (p.k === "chr" && p.t.op === "int") p = lit(String.fromCharCode(p.t.v));
    if (p.k === "trm" && p.t.op === "str") p = lit(p.t.v);
    if (p.k === "lit") { if (p.s === "") continue; const l = out[out.length - 1]; if (l && l.k === "lit") { out[out.length - 1] = lit(l.s + p.s); continue; } }
    out.push(p);
  }
  if (out.length === 0) return ""; if (out.length === 1 && out[0].k === "lit") return out[0].s;
  return new SStr(out);
}
const partsOf = (s) => (s instanceof SStr ? s.parts : s === "" ? [] : [lit(s)]);
const concat = (...l) => mkStr(l.flatMap(partsOf));
// ---- concretisation
function concretize(v) {
  if (!isSym(v)) return v;
  const m = E.ensureModel(); if (m === false) E.abort("infeasible");
  if (m === undefined) E.abort("incomplete", "no model");
  const c = evalSym(v, E.model);
  if (c === undefined) { E.abort("incomplete", "cannot evaluate"); }
  if (v instanceof SBool) E.addPc(c ? v.t : T.not(v.t));
  else if (v instanceof SNum) { if (!v.isReal) E.addPc(T.eq(v.t, T.int(c))); }
  else E.addPc(eqStr(v, c));
  return c;
}
function concretizeNote(v, why) { if (!isSym(v)) return v; E.note("concretised: " + why); return concretize(v); }
function evalSym(v, model) {
  if (v instanceof SBool || (v instanceof SNum && !v.isReal)) return T.ev(v.t, model);
  if (v instanceof SNum) return evalReal(v.t, model);
  let out = "";
  for (const p of v.parts) {
    let s;
    if (p.k === "lit") s = p.s;
    else if (p.k === "chr") { const c = T.ev(p.t, model); s = c === undefined ? undefined : String.fromCharCode(c); }
    else if (p.k === "var") { const n = T.ev(p.len, model); s = ""; for (let i = 0; i < n; i++) s += String.fromCharCode(T.ev(p.chars[i], model)); }
    else if (p.k === "trm") s = T.ev(p.t, model);
    else if (p.k === "rep") { const n = T.ev(p.len, model); s = n === undefined ? undefined : p.c.repeat(n); }
    else if (p.k === "jq") { const x = isSym(p.s) ? evalSym(p.s, model) : p.s; s = x === undefined ? undefined : JSON.stringify(x); }
    else if (p.k === "ns") { const x = T.ev(p.n.t, model); s = x === undefined ? undefined : String(x); }
    else if (p.k === "iso") { const x = T.ev(p.ms.t, model); s = x === undefined ? undefined : new Date(x).toISOString(); }
    if (s === undefined) return undefined;
    out += s;
  }
  return out;
}
function evalReal(t, model) { // approximate, only for reporting / observation
  switch (t.op) {
    case "real": return t.v; case "int": return t.v;
    case "var": return t.sort === "Real" ? (model.reals && model.reals.get(t.v)) || 0 : T.ev(t, model);
    case "to_real": return evalReal(t.args[0], model);
    case "+": return evalReal(t.args[0], model) + evalReal(t.args[1], model);
    case "*": return evalReal(t.args[0], model) * evalReal(t.args[1], model);
    case "/": return evalReal(t.args[0], model) / evalReal(t.args[1], model);
    case "neg": return -evalReal(t.args[0], model);
    case "to_int": return Math.floor(evalReal(t.args[0], model));
    default: return undefined;
  }
}
// deep evaluation of a JS value containing symbols
function evalDeep(v, model, depth = 0, seen = new Map()) {
  if (isSym(v)) return evalSym(v, model);
  if (v === null || typeof v !== "object") return typeof v === "function" ? "[function]" : v;
  if (seen.has(v)) return seen.get(v);
  if (v.$bytes) return { $bytes: v.$bytes.map((x) => evalDeep(x, model)) };
  if (v instanceof Date) { const ms = v.$ms !== undefined ? evalDeep(v.$ms, model) : v.getTime(); return { $date: ms }; }
  if (v instanceof Error) { const o = { $error: v.name, message: evalDeep(v.message, model, depth + 1, seen) }; return o; }
  if (v instanceof Map || v instanceof Set) { const r = []; seen.set(v, r); for (const e of v) r.push(evalDeep(e, model, depth + 1, seen)); return r; }
  if (Array.isArray(v)) { const r = []; seen.set(v, r); for (const e of v) r.push(evalDeep(e, model, depth + 1, seen)); return r; }
  if (v instanceof Uint8Array) return { $bytes: [...v] };
  const r = {}; seen.set(v, r);
  for (const k of Object.keys(v)) { const kk = E.phKeys.has(k) ? evalSym(E.phKeys.get(k), model) : k; r[kk] = evalDeep(v[k], model, depth + 1, seen); }
  return r;
}
// ---- forking on integers
function forkInt(n, limit = 2000) {
  if (!(n instanceof SNum)) return n;
  if (n.isReal) return concretizeNote(n, "real number used as index");
  for (let i = 0; i < limit; i++) {
    const m = E.ensureModel(); if (m === false) E.abort("infeasible");
    // deterministic candidate: smallest known value first when the range is small
    if (n.hi - n.lo <= 64) { for (let v = n.lo; v < n.hi; v++) if (E.branch(T.eq(n.t, T.int(v)))) return v; E.addPc(T.eq(n.t, T.int(n.hi))); return n.hi; }
    if (process.env.VTRACE) console.error(new Error("wide").stack.split("\n").slice(2, 14).join("\n")); return concretizeNote(n, "wide integer used as index");
  }
}
// ---- lengths
function partLen(p) {
  switch (p.k) { case "lit": return T.int(p.s.length); case "chr": return T.int(1); case "var": case "rep": return p.len; case "trm": return T.strlen(p.t); case "iso": return T.int(24); default: return null; }
}
function partMax(p) { switch (p.k) { case "lit": return p.s.length; case "chr": return 1; case "var": case "rep": return p.max; case "trm": return p.max !== undefined ? p.max : 1e6; case "iso": return 24; case "ns": return 17; default: return 1e6; } }
// lengths of number texts and JSON-quoted strings as terms: [term, lo, hi], or null
const escLen = (c) => (typeof c === "number" ? T.int(JSON.stringify(String.fromCharCode(c)).length - 2) : T.ite(T.or(...[34, 92, 8, 9, 10, 12, 13].map((k) => T.eq(c, T.int(k)))), T.int(2), T.ite(T.lt(c, T.int(32)), T.int(6), T.int(1))));
function opaqueLen(p) {
  if (p.k === "ns") {
    const { t, lo, hi } = p.n, m = Math.max(Math.abs(lo), Math.abs(hi)); if (m >= 1e15) return null; const abs = lo < 0 ? T.ite(T.lt(t, T.int(0)), T.neg(t), t) : t; let r = T.int(1), max = 1;
    for (let pow = 10; pow <= m; pow *= 10) { r = T.add(r, T.ite(T.le(T.int(pow), abs), T.int(1), T.int(0))); max++; } if (lo < 0) { r = T.add(r, T.ite(T.lt(t, T.int(0)), T.int(1), T.int(0))); max++; }
    return [r, 1, max];
  }
  if (p.k === "jq") {
    if (typeof p.s === "string") { const n = JSON.stringify(p.s).length; return [T.int(n), n, n]; } let r = T.int(2), lo = 2, hi = 2;
    for (const x of p.s.parts) {
      if (x.k === "lit") { if (/[\ud800-\udfff]/.test(x.s)) return null; const n = JSON.stringify(x.s).length - 2; r = T.add(r, T.int(n)); lo += n; hi += n; }
      else if (x.k === "rep") { const n = JSON.stringify(x.c).length - 2; r = T.add(r, T.mul(T.int(n), x.len)); lo += n * x.min; hi += n * x.max; }
      else if (x.k === "var" && (x.ascii || x.nosur)) { x.chars.forEach((c, i) => { r = T.add(r, i < x.min ? escLen(c) : T.ite(T.lt(T.int(i), x.len), escLen(c), T.int(0))); }); lo += x.min; hi += 6 * x.max; }
      else return null;
    }
    return [r, lo, hi];
  }
  return null;
}
function length(s) {
  if (typeof s === "string") return s.length;
  s = expandOpaque(s, (p) => { if (p.k !== "jq" && p.k !== "ns") return false; const l = opaqueLen(p); return !l || (l[2] - l[1] > 64 && !(p.k === "jq" && p.s instanceof SStr && p.s.parts.some((x) => x.k === "rep"))); });
  if (typeof s === "string") return s.length;
  if (s.parts.some((p) => p.k === "jq" || p.k === "ns")) {
    let t = T.int(0), lo = 0, hi = 0; for (const p of s.parts) { const o = opaqueLen(p); if (o) { t = T.add(t, o[0]); lo += o[1]; hi += o[2]; continue; } t = T.add(t, partLen(p)); hi += partMax(p); lo += p.k === "lit" ? p.s.length : p.k === "chr" ? 1 : p.k === "var" || p.k === "rep" ? p.min : 0; }
    return mkNum(t, lo, hi);
  }
  s = expandOpaque(s, (p) => p.k === "jq" || p.k === "ns");
  if (typeof s === "string") return s.length;
  let t = T.int(0), lo = 0, hi = 0;
  for (const p of s.parts) { t = T.add(t, partLen(p)); hi += partMax(p); lo += p.k === "lit" ? p.s.length : p.k === "chr" ? 1 : p.k === "var" || p.k === "rep" ? p.min : 0; }
  return mkNum(t, lo, hi);
}
function expandOpaque(s, pred) {
  if (!(s instanceof SStr) || !s.parts.some(pred)) return s;
  return mkStr(s.parts.flatMap((p) => (pred(p) ? explodePart(p) : [p])));
}
// ---- exploding a part to fixed characters (forks on lengths)
function explodePart(p) {
  switch (p.k) {
    case "lit": case "chr": return [p];
    case "var": {
      let n = p.min;
      for (; n < p.max; n++) if (E.branch(T.eq(p.len, T.int(n)))) break;
      if (n === p.max) E.addPc(T.eq(p.len, T.int(n)));
      return p.chars.slice(0, n).map(chr);
    }
    case "rep": { const n = forkInt(new SNum(p.len, p.min, p.max)); return n ? [lit(p.c.repeat(n))] : []; }
    case "jq": {
      const cs = chars(p.s); const out = [lit('"')];
      for (const c of cs) {
        if (typeof c === "number") { out.push(lit(JSON.stringify(String.fromCharCode(c)).slice(1, -1))); continue; }
        if (E.branch(T.and(T.le(T.int(32), c), T.not(T.eq(c, T.int(34))), T.not(T.eq(c, T.int(92))), T.or(T.lt(c, T.int(0xd800)), T.gt(c, T.int(0xdfff)))))) { out.push(chr(c)); continue; }
        let done = false;
        for (const k of [34, 92, 8, 9, 10, 12, 13]) if (E.branch(T.eq(c, T.int(k)))) { out.push(lit(JSON.stringify(String.fromCharCode(k)).slice(1, -1))); done = true; break; }
        if (done) continue;
        if (E.branch(T.lt(c, T.int(32)))) { const hd = (x) => chr(T.ite(T.lt(x, T.int(10)), T.add(x, T.int(48)), T.add(x, T.int(87)))); out.push(lit("\\u00"), hd(T.div(c, T.int(16))), hd(T.mod(c, T.int(16)))); continue; }
        const v = concretizeNote(new SNum(c, 0xd800, 0xdfff), "surrogate in JSON text"); out.push(lit(JSON.stringify(String.fromCharCode(v)).slice(1, -1)));
      }
      out.push(lit('"')); return out;
    }
    case "ns": {
      let n = p.n, t = n.t, out = [];
      if (n.lo < 0 && E.branch(T.lt(t, T.int(0)))) { out.push(lit("-")); t = T.neg(t); }
      let d = 1, pow = 10; while (d < 16 && !E.branch(T.lt(t, T.int(pow)))) { d++; pow *= 10; }
      for (let i = d - 1; i >= 0; i--) out.push(chr(T.add(T.int(48), T.mod(T.div(t, T.int(10 ** i)), T.int(10)))));
      return out;
    }
    case "iso": case "trm": {
      if (p.k === "trm" && p.max !== undefined && p.max <= 64) {
        const L = T.strlen(p.t); let n = 0; for (; n < p.max; n++) if (E.branch(T.eq(L, T.int(n)))) break; if (n === p.max) E.addPc(T.eq(L, T.int(n)));
        const r = []; for (let i = 0; i < n; i++) r.push(chr(T.toCode(T.substr(p.t, T.int(i), T.int(1))))); return r;
      }
      const v = concretizeNote(new SStr([p]), "unbounded string needed character by character"); return partsOf(v);
    }
  }
}
function explode(s) { if (typeof s === "string") return s; return mkStr(s.parts.flatMap(explodePart)); }
// array of number | Int term
function chars(s) {
  const out = [];
  for (const p of partsOf(explode(s))) { if (p.k === "lit") for (let i = 0; i < p.s.length; i++) out.push(p.s.charCodeAt(i)); else out.push(p.t); }
  return out;
}
const fromChars = (cs) => mkStr(cs.map((c) => (typeof c === "number" ? lit(String.fromCharCode(c)) : chr(c))));
const ct = (c) => (typeof c === "number" ? T.int(c) : c);
function toTerm(s) {
  if (typeof s === "string") return T.str(s);
  return T.concat(s.parts.flatMap((p) => {
    if (p.k === "lit") return [T.str(p.s)]; if (p.k === "chr") return [T.fromCode(p.t)]; if (p.k === "trm") return [p.t];
    if (p.k === "ns" && p.n.lo >= 0) return [T.fromInt(p.n.t)];
    return explodePart(p).map((x) => (x.k === "lit" ? T.str(x.s) : x.k === "chr" ? T.fromCode(x.t) : x.t));
  }));
}
const fixed = (p) => p.k === "lit" || p.k === "chr";
const hasTrm = (ps) => ps.some((p) => p.k === "trm");
function samePart(a, b) {
  if (a === b) return true; if (a.k !== b.k) return false;
  switch (a.k) { case "lit": return a.s === b.s; case "chr": return a.t === b.t; case "var": return a.len === b.len && a.chars.length === b.chars.length && a.chars.every((c, i) => c === b.chars[i]); case "rep": return a.c === b.c && a.len === b.len; case "trm": return a.t === b.t; case "ns": return a.n.t === b.n.t; case "iso": return a.ms.t === b.ms.t; case "jq": { const x = partsOf(a.s), y = partsOf(b.s); return x.length === y.length && x.every((p, i) => samePart(p, y[i])); } }
}
const sameStr = (a, b) => { const x = partsOf(a), y = partsOf(b); return x.length === y.length && x.every((p, i) => samePart(p, y[i])); };
function unitParts(ps) { return ps.flatMap((p) => (p.k === "lit" ? Array.from({ length: p.s.length }, (_, i) => lit(p.s[i])) : [p])); }
function eqStr(a, b) {
  if (typeof a === "string" && typeof b === "string") return T.bool(a === b);
  let x = partsOf(a).slice(), y = partsOf(b).slice();
  while (x.length && y.length && samePart(x[0], y[0])) { x.shift(); y.shift(); }
  while (x.length && y.length && samePart(x[x.length - 1], y[y.length - 1])) { x.pop(); y.pop(); }
  if (!x.length && !y.length) return T.TRUE;
  const code = (p) => (p.k === "lit" ? T.int(p.s.charCodeAt(0)) : p.t);
  const empt = (ps) => T.and(...ps.map((p) => (fixed(p) || p.k === "jq" || p.k === "ns" || p.k === "iso" ? T.FALSE : T.eq(partLen(p), T.int(0)))));
  if (!x.length) return empt(y); if (!y.length) return empt(x);
  x = unitParts(x); y = unitParts(y);
  if (x.every(fixed) && y.every(fixed)) { if (x.length !== y.length) return T.FALSE; return T.and(...x.map((p, i) => T.eq(code(p), code(y[i])))); }
  // cheap length refutation
  const minL = (ps) => ps.reduce((n, p) => n + (fixed(p) ? 1 : p.k === "var" || p.k === "rep" ? p.min : p.k === "jq" ? 2 : p.k === "ns" ? 1 : p.k === "iso" ? 24 : 0), 0);
  const maxL = (ps) => ps.reduce((n, p) => n + (p.k === "jq" ? 1e6 : partMax(p)), 0);
  if (minL(x) > maxL(y) || minL(y) > maxL(x)) return T.FALSE;
  if (x.length === 1 && x[0].k === "rep" && y.every(fixed)) return T.and(T.eq(x[0].len, T.int(y.length)), ...y.map((p) => T.eq(T.int(x[0].c.charCodeAt(0)), code(p))));
  if (y.length === 1 && y[0].k === "rep" && x.every(fixed)) return eqStr(b, a);
  if (x.length === 1 && y.length === 1 && x[0].k === "rep" && y[0].k === "rep") return T.and(T.eq(x[0].len, y[0].len), x[0].c === y[0].c ? T.TRUE : T.eq(x[0].len, T.int(0)));
  if (x.length === 1 && x[0].k === "var" && y.every(fixed)) { const v = x[0]; if (y.length > v.max) return T.FALSE; return T.and(T.eq(v.len, T.int(y.length)), ...y.map((p, i) => T.eq(v.chars[i], code(p)))); }
  if (y.length === 1 && y[0].k === "var" && x.every(fixed)) return eqStr(b, a);
  if (x.length === 1 && y.length === 1 && x[0].k === "var" && y[0].k === "var") {
    const u = x[0], v = y[0]; const m = Math.min(u.max, v.max);
    return T.and(T.eq(u.len, v.len), ...Array.from({ length: m }, (_, i) => T.implies(T.lt(T.int(i), u.len), T.eq(u.chars[i], v.chars[i]))));
  }
  // left to right alignment
  const cs = [];
  let i = 0, j = 0;
  for (;;) {
    if (i >= x.length || j >= y.length) { cs.push(empt(x.slice(i)), empt(y.slice(j))); return T.and(...cs); }
    const p = x[i], r = y[j];
    if (samePart(p, r)) { i++; j++; continue; }
    if (fixed(p) && fixed(r)) { const c = T.eq(code(p), code(r)); if (c === T.FALSE) return T.FALSE; cs.push(c); i++; j++; continue; }
    if (p.k === "jq" && r.k === "jq") { const c = eqStr(p.s, r.s); if (c === T.FALSE) return c; cs.push(c); i++; j++; continue; }
    const opaqueVsOpen = (a, b) => a.k === "jq" && fixed(b) && (b.k === "lit" ? b.s !== '"' : false);
    if (opaqueVsOpen(p, r) || opaqueVsOpen(r, p)) return T.FALSE;
    if (p.k === "ns" && r.k === "ns") {
      const stop = (ps, k) => k + 1 >= ps.length || (ps[k + 1].k === "lit" && !/[0-9]/.test(ps[k + 1].s));
      if (stop(x, i) && stop(y, j)) { cs.push(T.eq(p.n.t, r.n.t)); i++; j++; continue; }
    }
    const nsLit = (a, ai, al, b, bi, bl) => { // number text against literal digits up to a delimiter
      if (a.k !== "ns" || !(ai + 1 >= al.length || (al[ai + 1].k === "lit" && !/[0-9]/.test(al[ai + 1].s)))) return null;
      let k = bi, s = ""; if (bl[k] && bl[k].k === "lit" && bl[k].s === "-") { s = "-"; k++; }
      while (k < bl.length && bl[k].k === "lit" && /[0-9]/.test(bl[k].s)) { s += bl[k].s; k++; }
      if (k < bl.length && bl[k].k !== "lit") return null;
      return { c: /^(0|-?[1-9][0-9]*)$/.test(s) && s.length < 16 ? T.eq(a.n.t, T.int(Number(s))) : T.FALSE, k };
    };
    let z = nsLit(p, i, x, r, j, y); if (z) { if (z.c === T.FALSE) return z.c; cs.push(z.c); i++; j = z.k; continue; }
    z = nsLit(r, j, y, p, i, x); if (z) { if (z.c === T.FALSE) return z.c; cs.push(z.c); j++; i = z.k; continue; }
    if (p.k === "iso" && r.k === "iso") { cs.push(T.eq(p.ms.t, r.ms.t)); i++; j++; continue; }
    const rx = x.slice(i), ry = y.slice(j);
    if (hasTrm(rx) || hasTrm(ry)) { cs.push(T.eq(toTerm(mkStr(rx)), toTerm(mkStr(ry)))); return T.and(...cs); }
    // a variable-length part meets something else: expand it
    if (p.k === "var" && rx.length === 1 && ry.every(fixed)) { cs.push(eqStr(mkStr(rx), mkStr(ry))); return T.and(...cs); }
    if (r.k === "var" && ry.length === 1 && rx.every(fixed)) { cs.push(eqStr(mkStr(ry), mkStr(rx))); return T.and(...cs); }
    if (!fixed(p)) x.splice(i, 1, ...unitParts(explodePart(p))); else y.splice(j, 1, ...unitParts(explodePart(r)));
  }
}
// ---- predicates
function truthyStr(s) {
  if (typeof s === "string") return T.bool(s !== "");
  return T.or(...s.parts.map((p) => (p.k === "var" || p.k === "trm" || p.k === "rep" ? T.lt(T.int(0), partLen(p)) : T.TRUE)));
}
function startsWith(s, p) {
  if (p === "") return T.TRUE;
  if (typeof s === "string" && typeof p === "string") return T.bool(s.startsWith(p));
  let x = unitParts(partsOf(s)), y = unitParts(partsOf(p)); const cs = []; const code = (q) => (q.k === "lit" ? T.int(q.s.charCodeAt(0)) : q.t);
  for (;;) {
    if (!y.length) return T.and(...cs);
    if (!x.length) { for (const q of y) { if (fixed(q) || q.k === "jq" || q.k === "ns" || q.k === "iso") return T.FALSE; cs.push(T.eq(partLen(q), T.int(0))); } return T.and(...cs); }
    const a = x[0], b = y[0];
    if (samePart(a, b)) { x.shift(); y.shift(); continue; }
    if (fixed(a) && fixed(b)) { const c = T.eq(code(a), code(b)); if (c === T.FALSE) return c; cs.push(c); x.shift(); y.shift(); continue; }
    if (a.k === "jq" && b.k === "jq") { cs.push(eqStr(a.s, b.s)); x.shift(); y.shift(); continue; }
    if (a.k === "var" && y.every(fixed) && (x.length === 1 || y.length <= a.min)) {
      if (y.length > a.max) return T.FALSE;
      cs.push(T.ge(a.len, T.int(y.length)), ...y.map((q, i) => T.eq(a.chars[i], code(q)))); return T.and(...cs);
    }
    if (hasTrm(x) || hasTrm(y)) { cs.push(T.prefixof(toTerm(mkStr(y)), toTerm(mkStr(x)))); return T.and(...cs); }
    if (!fixed(a)) x.splice(0, 1, ...unitParts(explodePart(a))); else y.splice(0, 1, ...unitParts(explodePart(b)));
  }
}
function endsWith(s, p) {
  if (p === "") return T.TRUE;
  if (typeof s === "string" && typeof p === "string") return T.bool(s.endsWith(p));
  const x = partsOf(s), y = partsOf(p); const l = x[x.length - 1];
  if (typeof p === "string" && l && l.k === "lit" && l.s.length >= p.length) return T.bool(l.s.endsWith(p));
  if (typeof p === "string" && x.length === 1 && l.k === "var") { // no fork: case split on the length inside the term
    const v = l, cs = []; for (let n = Math.max(p.length, v.min); n <= v.max; n++) cs.push(T.and(T.eq(v.len, T.int(n)), ...[...Array(p.length).keys()].map((i) => T.eq(v.chars[n - p.length + i], T.int(p.charCodeAt(i)))))); return T.or(...cs);
  }
  if (hasTrm(x) || hasTrm(y)) return T.suffixof(toTerm(p), toTerm(s));
  const a = chars(s), b = chars(p); if (b.length > a.length) return T.FALSE;
  return T.and(...b.map((c, i) => T.eq(ct(a[a.length - b.length + i]), ct(c))));
}
function matchAt(a, b, i) { return T.and(...b.map((c, k) => T.eq(ct(a[i + k]), ct(c)))); }
function includes(s, p) {
  if (p === "") return T.TRUE;
  if (typeof s === "string" && typeof p === "string") return T.bool(s.includes(p));
  const x = partsOf(s);
  if (typeof p === "string" && p.length === 1) { // part by part, without forking
    const code = T.int(p.charCodeAt(0)); let ok = true; const cs = [];
    for (const q of x) {
      if (q.k === "lit") cs.push(T.bool(q.s.includes(p)));
      else if (q.k === "chr") cs.push(T.eq(q.t, code));
      else if (q.k === "var") cs.push(...q.chars.map((c, i) => T.and(T.lt(T.int(i), q.len), T.eq(c, code))));
      else if (q.k === "rep") cs.push(q.c === p ? T.lt(T.int(0), q.len) : T.FALSE);
      else if (q.k === "trm") cs.push(T.contains(q.t, T.str(p)));
      else if (q.k === "ns") cs.push(/[0-9]/.test(p) ? (ok = false, T.FALSE) : p === "-" ? T.lt(q.n.t, T.int(0)) : T.FALSE);
      else if (q.k === "jq" && !/["\\nrtbfu0-9a-fA-F]/.test(p) && p >= " " && p < "\u007f") cs.push(includes(q.s, p));
      else ok = false;
    }
    if (ok) return T.or(...cs);
  }
  if (x.some((q) => q.k === "lit" && typeof p === "string" && q.s.includes(p))) return T.TRUE;
  if (hasTrm(x) || hasTrm(partsOf(p))) return T.contains(toTerm(s), toTerm(p));
  const a = chars(s), b = chars(p); const cs = [];
  for (let i = 0; i + b.length <= a.length; i++) cs.push(matchAt(a, b, i));
  return T.or(...cs);
}
function indexOf(s, p, from = 0) {
  const ps = partsOf(s);
  if (from === 0 && typeof p === "string" && p.length >= 1 && hasTrm(ps)) {
    // skip parts that provably or by fork do not contain the first character
    return mkNum(T.indexof(toTerm(s), T.str(p), T.int(0)), -1, 1e6);
  }
  const a = chars(s), b = chars(p); from = Math.max(0, from);
  for (let i = from; i + b.length <= a.length; i++) if (E.branch(matchAt(a, b, i))) return i;
  return -1;
}
function lastIndexOf(s, p) { const a = chars(s), b = chars(p); for (let i = a.length - b.length; i >= 0; i--) if (E.branch(matchAt(a, b, i))) return i; return -1; }
// ---- slicing
function dropLeft(s, n) {
  if (n <= 0) return s; if (typeof s === "string") return s.slice(n);
  const ps = s.parts.slice();
  while (n > 0 && ps.length) {
    const p = ps[0];
    if (p.k === "lit") { if (p.s.length > n) { ps[0] = lit(p.s.slice(n)); n = 0; } else { n -= p.s.length; ps.shift(); } }
    else if (p.k === "chr") { n--; ps.shift(); }
    else if (p.k === "trm") { const t = toTerm(mkStr(ps)); return mkStr([{ k: "trm", t: T.substr(t, T.int(n), T.strlen(t)) }]); }
    else if (p.k === "var" && n <= p.min) { ps[0] = { k: "var", len: T.add(p.len, T.int(-n)), chars: p.chars.slice(n), max: p.max - n, min: p.min - n }; n = 0; }
    else if (p.k === "var" && E.known(T.ge(p.len, T.int(n))) === true) { ps[0] = { k: "var", len: T.add(p.len, T.int(-n)), chars: p.chars.slice(n), max: p.max - n, min: 0 }; n = 0; }
    else ps.splice(0, 1, ...explodePart(p));
  }
  return mkStr(ps);
}
function takeLeft(s, n) {
  if (n <= 0) return ""; if (typeof s === "string") return s.slice(0, n);
  const ps = s.parts.slice(), out = [];
  while (n > 0 && ps.length) {
    const p = ps[0];
    if (p.k === "lit") { if (p.s.length >= n) { out.push(lit(p.s.slice(0, n))); n = 0; } else { out.push(p); n -= p.s.length; ps.shift(); } }
    else if (p.k === "chr") { out.push(p); n--; ps.shift(); }
    else if (p.k === "trm") { const t = toTerm(mkStr(ps)); out.push({ k: "trm", t: T.substr(t, T.int(0), T.int(n)), max: n }); n = 0; }
    else if ((p.k === "var" || p.k === "rep") && p.max <= n && ps.length === 1) { out.push(p); n = 0; }
    else if (p.k === "rep") { if (E.branch(T.ge(p.len, T.int(n)))) { out.push(lit(p.c.repeat(n))); n = 0; } else if (ps.length === 1) { out.push(p); n = 0; } else ps.splice(0, 1, ...explodePart(p)); }
    else ps.splice(0, 1, ...explodePart(p));
  }
  return mkStr(out);
}
function dropRight(s, n) {
  if (n <= 0) return s; if (typeof s === "string") return s.slice(0, Math.max(0, s.length - n));
  const ps = s.parts.slice();
  while (n > 0 && ps.length) {
    const p = ps[ps.length - 1];
    if (p.k === "lit") { if (p.s.length > n) { ps[ps.length - 1] = lit(p.s.slice(0, p.s.length - n)); n = 0; } else { n -= p.s.length; ps.pop(); } }
    else if (p.k === "chr") { n--; ps.pop(); }
    else if (p.k === "trm") { const t = toTerm(mkStr(ps)); return mkStr([{ k: "trm", t: T.substr(t, T.int(0), T.sub(T.strlen(t), T.int(n))) }]); }
    else ps.splice(ps.length - 1, 1, ...explodePart(p));
  }
  return mkStr(ps);
}
function slice(s, a, b) {
  a = a === undefined ? 0 : forkInt(a); if (b !== undefined) b = forkInt(b);
  a = Math.trunc(a); if (Number.isNaN(a)) a = 0; if (b !== undefined) { b = Math.trunc(b); if (Number.isNaN(b)) b = 0; }
  if (a >= 0) {
    if (b === undefined) return dropLeft(s, a);
    if (b >= 0) return b <= a ? "" : dropLeft(takeLeft(s, b), a);
    // both ends: drop right then left, but when too short the result is ""
    const ps = partsOf(s); const lead = ps[0] && ps[0].k === "lit" ? ps[0].s.length : 0, tail = ps.length > 1 && ps[ps.length - 1].k === "lit" ? ps[ps.length - 1].s.length : 0;
    if (ps.length > 1 && lead >= a && tail >= -b) return dropRight(dropLeft(s, a), -b);
    const cs = chars(s); return fromChars(cs.slice(a, b));
  }
  const cs = chars(s); return fromChars(b === undefined ? cs.slice(a) : cs.slice(a, b));
}
function at(s, i) { // s[i] or undefined
  if (!Number.isInteger(i) || i < 0) return undefined;
  const ps = partsOf(s).slice(); let n = i;
  while (ps.length) {
    const p = ps[0];
    if (p.k === "lit") { if (n < p.s.length) return p.s[n]; n -= p.s.length; ps.shift(); }
    else if (p.k === "chr") { if (n === 0) return mkStr([p]); n--; ps.shift(); }
    else if (p.k === "iso") { if (n < 24) break; n -= 24; ps.shift(); }
    else if (p.k === "var" && n < p.max && E.branch(T.lt(T.int(n), p.len))) return mkStr([chr(p.chars[n])]);
    else if (p.k === "rep" && E.branch(T.lt(T.int(n), p.len))) return p.c;
    else if ((p.k === "var" || p.k === "rep") && ps.length === 1) return undefined;
    else if (p.k === "jq" && n === 0) return '"';
    else if (p.k === "trm") { const t = toTerm(mkStr(ps)); if (!E.branch(T.lt(T.int(n), T.strlen(t)))) return undefined; return mkStr([chr(T.toCode(T.substr(t, T.int(n), T.int(1))))]); }
    else ps.splice(0, 1, ...explodePart(p));
  }
  const cs = chars(s); return i < cs.length ? fromChars([cs[i]]) : undefined;
}
// does a part contain character c? atomic pieces are kept whole when they provably (or on this fork) do not
function split(s, sep, limit) {
  if (sep === undefined) return [s];
  if (typeof sep === "string" && sep.length === 1) {
    const code = T.int(sep.charCodeAt(0)); const out = [[]]; const queue = partsOf(s).slice();
    while (queue.length) {
      const p = queue.shift();
      if (p.k === "lit") { const bits = p.s.split(sep); bits.forEach((b, i) => { if (i) out.push([]); out[out.length - 1].push(lit(b)); }); }
      else if (p.k === "chr") { if (E.branch(T.eq(p.t, code))) out.push([]); else out[out.length - 1].push(p); }
      else { if (!E.branch(includes(new SStr([p]), sep))) out[out.length - 1].push(p); else queue.unshift(...explodePart(p)); }
    }
    const r = out.map(mkStr); return limit === undefined ? r : r.slice(0, limit);
  }
  const a = chars(s), b = chars(sep); const out = []; let start = 0;
  if (b.length === 0) { const r = a.map((c) => fromChars([c])); return limit === undefined ? r : r.slice(0, limit); }
  for (let i = 0; i + b.length <= a.length;) { if (E.branch(matchAt(a, b, i))) { out.push(fromChars(a.slice(start, i))); i += b.length; start = i; } else i++; }
  out.push(fromChars(a.slice(start)));
  return limit === undefined ? out : out.slice(0, limit);
}
// GetSubstitution without captures
function substitute(repl, matched, before, after, groups = [], named) {
  const out = []; const queue = partsOf(repl).slice();
  if (!E.branch(includes(repl, "$"))) return repl;
  const cs = chars(repl);
  const is = (c, k) => c !== undefined && (typeof c === "number" ? c === k : E.branch(T.eq(c, T.int(k))));
  for (let i = 0; i < cs.length; i++) {
    const c = cs[i];
    if (!is(c, 36)) { out.push(fromChars([c])); continue; }
    const d = cs[i + 1];
    if (d === undefined) { out.push("$"); continue; }
    if (is(d, 36)) { out.push("$"); i++; } else if (is(d, 38)) { out.push(matched); i++; } else if (is(d, 96)) { out.push(before()); i++; } else if (is(d, 39)) { out.push(after()); i++; }
    else if (groups.length && typeof d === "number" && d >= 48 && d <= 57) {
      let n = d - 48, used = 1; const e2 = cs[i + 2];
      if (typeof e2 === "number" && e2 >= 48 && e2 <= 57 && n * 10 + (e2 - 48) >= 1 && n * 10 + (e2 - 48) <= groups.length) { n = n * 10 + (e2 - 48); used = 2; }
      if (n >= 1 && n <= groups.length) { out.push(groups[n - 1] === undefined ? "" : groups[n - 1]); i += used; } else out.push("$");
    } else if (groups.length && typeof d !== "number") {
      let hit = false; for (let n = 1; n <= Math.min(9, groups.length); n++) if (is(d, 48 + n)) { out.push(groups[n - 1] === undefined ? "" : groups[n - 1]); i++; hit = true; break; }
      if (!hit) out.push("$");
    } else out.push("$");
  }
  return concat(...out);
}
function replaceStr(s, p, repl, all, callf) {
  // concrete single-char needles: keep pieces that do not contain it whole
  const pieces = []; // strings around matches
  if (all && !callf && typeof p === "string" && p.length === 1 && typeof repl === "string" && repl.length === 1 && repl !== "$" && s instanceof SStr && s.parts.every((q) => q.k === "lit" || q.k === "chr" || q.k === "var")) { // character for character: no fork
    const f = (c) => T.ite(T.eq(c, T.int(p.charCodeAt(0))), T.int(repl.charCodeAt(0)), c);
    return mkStr(s.parts.map((q) => (q.k === "lit" ? lit(q.s.split(p).join(repl)) : q.k === "chr" ? chr(f(q.t)) : { k: "var", len: q.len, chars: q.chars.map(f), max: q.max, min: q.min, ascii: q.ascii && repl < "\x80" })));
  }
  if (typeof p === "string" && p.length === 1) { const bits = split(s, p); if (all) pieces.push(...bits); else { pieces.push(bits[0]); if (bits.length > 1) { let rest = bits[1]; for (const b of bits.slice(2)) rest = concat(rest, p, b); pieces.push(rest); } } }
  else {
    const a = chars(s), b = chars(p); let start = 0;
    if (b.length === 0) { if (!all) { pieces.push("", s); } else { pieces.push("", ...a.map((c) => fromChars([c])), ""); if (!a.length) pieces.length = 2; } }
    else {
      for (let i = 0; i + b.length <= a.length;) { if (E.branch(matchAt(a, b, i))) { pieces.push(fromChars(a.slice(start, i))); i += b.length; start = i; if (!all) break; } else i++; }
      pieces.push(fromChars(a.slice(start)));
    }
  }
  let out = pieces[0];
  for (let i = 1; i < pieces.length; i++) {
    const before = () => { let r = pieces[0]; for (let k = 1; k < i; k++) r = concat(r, p, pieces[k]); return r; };
    const after = () => { let r = pieces[i]; for (let k = i + 1; k < pieces.length; k++) r = concat(r, p, pieces[k]); return r; };
    const rep = callf ? callf(p, [], length(before()), s) : substitute(repl, p, before, after);
    out = concat(out, rep, pieces[i]);
  }
  return out;
}
const WS = [9, 10, 11, 12, 13, 32, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff];
const isWs = (c) => (typeof c === "number" ? T.bool(/\s/.test(String.fromCharCode(c))) : T.or(...WS.map((w) => T.eq(c, T.int(w))), T.and(T.le(T.int(0x2000), c), T.le(c, T.int(0x200a)))));
function trim(s, l = true, r = true) {
  const cs = chars(s); let a = 0, b = cs.length;
  if (l) while (a < b && E.branch(isWs(cs[a]))) a++;
  if (r) while (b > a && E.branch(isWs(cs[b - 1]))) b--;
  return fromChars(cs.slice(a, b));
}
function mapCase(s, lower) {
  if (typeof s === "string") return lower ? s.toLowerCase() : s.toUpperCase();
  const one = (t) => {
    if (!E.branch(T.lt(t, T.int(128)))) { const v = concretizeNote(new SNum(t, 128, 65535), "case mapping of a non-ASCII character"); const x = String.fromCharCode(v); return lit(lower ? x.toLowerCase() : x.toUpperCase()); }
    return chr(lower ? T.ite(T.and(T.le(T.int(65), t), T.le(t, T.int(90))), T.add(t, T.int(32)), t) : T.ite(T.and(T.le(T.int(97), t), T.le(t, T.int(122))), T.add(t, T.int(-32)), t));
  };
  return mkStr(s.parts.flatMap((p) => {
    if (p.k === "lit") return [lit(lower ? p.s.toLowerCase() : p.s.toUpperCase())];
    if (p.k === "var" && p.ascii) { const f = (t) => { const r = lower ? T.ite(T.and(T.le(T.int(65), t), T.le(t, T.int(90))), T.add(t, T.int(32)), t) : T.ite(T.and(T.le(T.int(97), t), T.le(t, T.int(122))), T.add(t, T.int(-32)), t); return r; }; return [{ ...p, chars: p.chars.map(f) }]; }
    return explodePart(p).map((x) => (x.k === "lit" ? lit(lower ? x.s.toLowerCase() : x.s.toUpperCase()) : one(x.t)));
  }));
}
function pad(s, n, fill, left) {
  n = forkInt(n);
  // a one- or two-digit string padded to two: no fork
  if (n === 2 && left && typeof fill === "string" && fill.length === 1 && s instanceof SStr && s.parts.length === 1 && s.parts[0].k === "var" && s.parts[0].min === 1 && s.parts[0].max === 2) { const p = s.parts[0], one = T.eq(p.len, T.int(1)); return mkStr([chr(T.ite(one, T.int(fill.charCodeAt(0)), p.chars[0])), chr(T.ite(one, p.chars[0], p.chars[1]))]); }
  let L = length(s); L = forkInt(L); if (L >= n || fill === "") return s;
  if (typeof fill !== "string") fill = concretizeNote(fill, "symbolic padding");
  const f = "".padStart(n - L, fill); return left ? concat(f, s) : concat(s, f);
}
function lessStr(a, b) { // a < b
  const x = chars(a), y = chars(b);
  for (let i = 0; ; i++) {
    if (i >= y.length) return T.FALSE; if (i >= x.length) return T.TRUE;
    const p = ct(x[i]), q = ct(y[i]);
    if (i + 1 >= x.length && i + 1 >= y.length) return T.lt(p, q);
    if (!E.branch(T.eq(p, q))) return T.lt(p, q);
  }
}
function numToStr(n, radix) {
  if (n.isReal) return concretizeNote(n, "text of a real number") + "";
  radix = radix === undefined ? 10 : radix;
  if (radix === 10) return mkStr([{ k: "ns", n }]);
  const digit = (x) => T.ite(T.lt(x, T.int(10)), T.add(x, T.int(48)), T.add(x, T.int(87)));
  if (n.lo >= 0 && n.lo < radix && n.hi >= radix && n.hi < radix * radix) { const one = T.lt(n.t, T.int(radix)), lo = digit(T.mod(n.t, T.int(radix))), hi = digit(T.div(n.t, T.int(radix))); return mkStr([{ k: "var", len: T.ite(one, T.int(1), T.int(2)), chars: [T.ite(one, lo, hi), lo], max: 2, min: 1, ascii: true }]); }
  let t = n.t, pre = []; if (n.lo < 0 && E.branch(T.lt(t, T.int(0)))) { pre = [lit("-")]; t = T.neg(t); }
  let d = 1, pow = radix; while (pow <= Math.max(Math.abs(n.hi), Math.abs(n.lo)) && !E.branch(T.lt(t, T.int(pow)))) { d++; pow *= radix; }
  const out = []; for (let i = d - 1; i >= 0; i--) { const x = T.mod(T.div(t, T.int(radix ** i)), T.int(radix)); out.push(chr(T.ite(T.lt(x, T.int(10)), T.add(x, T.int(48)), T.add(x, T.int(87))))); }
  return mkStr([...pre, ...out]);
}
module.exports = { sameStr, Sym, SBool, SNum, SStr, isSym, mkBool, mkNum, mkStr, partsOf, concat, lit, chr, concretize, concretizeNote, evalSym, evalDeep, forkInt, length, explode, chars, fromChars, ct, toTerm, eqStr, truthyStr, startsWith, endsWith, includes, indexOf, lastIndexOf, slice, at, split, replaceStr, substitute, trim, isWs, mapCase, pad, lessStr, numToStr, explodePart, takeLeft, dropLeft };
