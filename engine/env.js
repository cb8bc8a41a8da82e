"use strict";
// The modelled environment: clock, timers, randomness, hashing, console, network, encodings.
// The same controls exist symbolically (for exploration) and concretely (for replay against the real code).
const T = require("./terms.js"), E = require("./state.js"), S = require("./sym.js"), $ = require("./runtime.js");
const { Sym, SNum, SStr, isSym, mkNum } = S;
const trustAll = (C) => { for (const k of Reflect.ownKeys(C.prototype)) { const d = Object.getOwnPropertyDescriptor(C.prototype, k); if (d && typeof d.value === "function" && k !== "constructor") d.value.$trusted = true; } for (const k of Reflect.ownKeys(C)) { const d = Object.getOwnPropertyDescriptor(C, k); if (d && typeof d.value === "function") d.value.$trusted = true; } C.$trusted = true; return C; };
// ---------- Map / Set with symbolic keys
const isPrim = (k) => k instanceof Sym || k === null || (typeof k !== "object" && typeof k !== "function");
class SMap extends Map {
  constructor(it) { super(); this.$n = 0; if (it !== undefined && it !== null) for (const e of $.iter(it)) this.set($.get(e, 0), $.get(e, 1)); }
  $find(k) { // the stored key equal to k
    if (!isPrim(k)) return k;
    if (!(k instanceof Sym)) { if (super.has(k)) return k; if (!this.$n) return k; for (const e of super.keys()) if (e instanceof Sym && E.branch($.seqTerm(e, k))) return e; return k; }
    if (super.has(k)) return k;
    for (const e of super.keys()) if (isPrim(e) && E.branch($.seqTerm(e, k))) return e;
    return k;
  }
  get(k) { return super.get(this.$find(k)); } has(k) { return super.has(this.$find(k)); }
  set(k, v) { const f = this.$n === undefined ? k : this.$find(k); if (f instanceof Sym && !super.has(f)) this.$n++; return super.set(f, v); }
  delete(k) { const f = this.$find(k); if (f instanceof Sym && super.has(f)) this.$n--; return super.delete(f); }
  clear() { this.$n = 0; super.clear(); }
}
class SSet extends Set {
  constructor(it) { super(); this.$n = 0; if (it !== undefined && it !== null) for (const e of $.iter(it)) this.add(e); }
  has(k) { return super.has(find(this, (x) => super.has(x), () => super.keys(), k)); }
  add(k) { const f = this.$n === undefined ? k : find(this, (x) => super.has(x), () => super.keys(), k); if (f instanceof Sym && !super.has(f)) this.$n++; return super.add(f); }
  delete(k) { const f = find(this, (x) => super.has(x), () => super.keys(), k); if (f instanceof Sym && super.has(f)) this.$n--; return super.delete(f); }
  clear() { this.$n = 0; super.clear(); }
}
function find(s, has, keys, k) {
  if (!isPrim(k)) return k;
  if (!(k instanceof Sym)) { if (has(k) || !s.$n) return k; for (const e of keys()) if (e instanceof Sym && E.branch($.seqTerm(e, k))) return e; return k; }
  if (has(k)) return k; for (const e of keys()) if (isPrim(e) && E.branch($.seqTerm(e, k))) return e; return k;
}
for (const n of ["get", "has", "set", "delete", "clear", "keys", "values", "entries", "forEach", Symbol.iterator]) if (Map.prototype[n]) $.safe.add(Map.prototype[n]);
for (const n of ["add", "has", "delete", "clear", "keys", "values", "entries", "forEach", Symbol.iterator]) if (Set.prototype[n]) $.safe.add(Set.prototype[n]);
$.safe.add(Object.getPrototypeOf(new Map()[Symbol.iterator]()).next); $.safe.add(Object.getPrototypeOf(new Set()[Symbol.iterator]()).next); $.safe.add(Object.getPrototypeOf([][Symbol.iterator]()).next);
trustAll(SMap); trustAll(SSet);
// ---------- errors
function shadowError(Base) {
  const C = function (msg, opts) {
    const symbolic = isSym(msg); const args = symbolic || msg === undefined ? [] : [msg];
    const e = Reflect.construct(Base, args, new.target || C);
    if (symbolic) Object.defineProperty(e, "message", { value: $.str(msg), writable: true, configurable: true, enumerable: false });
    if (opts && typeof opts === "object" && "cause" in opts) Object.defineProperty(e, "cause", { value: opts.cause, writable: true, configurable: true, enumerable: false });
    return e;
  };
  C.prototype = Base.prototype; Object.setPrototypeOf(C, Base); C.$trusted = true; Object.defineProperty(C, "name", { value: Base.name });
  return C;
}
// ---------- bytes
class SymU8 {
  constructor(bytes) { Object.defineProperty(this, "$bytes", { value: bytes, enumerable: false }); }
  get length() { return this.$bytes.length; } get byteLength() { return this.$bytes.length; } get byteOffset() { return 0; } get buffer() { return new SymBuf(this.$bytes); }
  slice(a, b) { return new SymU8(this.$bytes.slice(a, b)); } subarray(a, b) { return new SymU8(this.$bytes.slice(a, b)); }
  map(f) { return new SymU8(this.$bytes.map((v, i) => $.toByte($.invoke(f, undefined, [v, i, this])))); }
  forEach(f) { this.$bytes.forEach((v, i) => $.invoke(f, undefined, [v, i, this])); }
  reduce(f, ...init) { let acc, i = 0; if (init.length) acc = init[0]; else acc = this.$bytes[i++]; for (; i < this.$bytes.length; i++) acc = $.invoke(f, undefined, [acc, this.$bytes[i], i, this]); return acc; }
  every(f) { return this.$bytes.every((v, i) => $.t($.invoke(f, undefined, [v, i, this]))); } some(f) { return this.$bytes.some((v, i) => $.t($.invoke(f, undefined, [v, i, this]))); }
  set(src, off = 0) { const l = [...$.iter(src)]; for (let i = 0; i < l.length; i++) this.$bytes[i + off] = $.toByte(l[i]); }
  join(sep) { return $.joinArr(this.$bytes, sep === undefined ? "," : sep); }
  at(i) { return this.$bytes.at(i); } fill(v) { this.$bytes.fill($.toByte(v)); return this; } indexOf(v) { for (let i = 0; i < this.$bytes.length; i++) if ($.t($.seq(this.$bytes[i], v))) return i; return -1; }
  keys() { return this.$bytes.keys(); } values() { return this.$bytes.values(); } entries() { return this.$bytes.entries(); }
  [Symbol.iterator]() { return this.$bytes[Symbol.iterator](); }
  toString(enc) { if (!this.$isBuffer) return $.joinArr(this.$bytes, ","); return bufToString(this.$bytes, enc); }
  toJSON() { if (this.$isBuffer) return { type: "Buffer", data: this.$bytes.slice() }; return undefined; }
  equals(o) { return bytesEq(this.$bytes, $.iter(o)); }
  get [Symbol.toStringTag]() { return "Uint8Array"; }
}
Object.setPrototypeOf(SymU8.prototype, Uint8Array.prototype); trustAll(SymU8);
delete SymU8.prototype.toJSON;
class SymBuf { constructor(bytes) { Object.defineProperty(this, "$bytes", { value: bytes, enumerable: false }); } get byteLength() { return this.$bytes.length; } slice(a, b) { return new SymBuf(this.$bytes.slice(a, b)); } }
Object.setPrototypeOf(SymBuf.prototype, ArrayBuffer.prototype); trustAll(SymBuf);
const bytesOf = (x) => { if (x && x.$bytes) return x.$bytes; if (x instanceof ArrayBuffer) return [...new Uint8Array(x)]; if (ArrayBuffer.isView(x)) return [...new Uint8Array(x.buffer, x.byteOffset, x.byteLength)]; return null; };
const bt = (x) => (typeof x === "number" ? T.int(x) : x instanceof SNum ? x.t : x);
const wrapByte = (t) => (typeof t === "number" ? t : t.op === "int" ? t.v : mkNum(t, 0, 255));
function bytesEqTerm(a, b) { if (a.length !== b.length) return T.FALSE; return T.and(...a.map((x, i) => T.eq(bt(x), bt(b[i])))); }
function bytesEq(a, b) { return S.mkBool(bytesEqTerm([...a], [...b])); }
function utf8Bytes(s) { const out = []; for (const b of $.utf8(S.chars(s))) { if (b && b.lone) out.push(0xef, 0xbf, 0xbd); else out.push(wrapByte(b)); } return out; }
const fromUtf8 = (bytes) => { if (bytes.every((b) => typeof b === "number")) return Buffer.from(bytes).toString("utf8"); return S.fromChars($.utf8dec(bytes.map((b) => (typeof b === "number" ? b : b.t)))); };
const ALPH = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const enc6 = (t) => (t.op === "int" ? S.lit(ALPH[t.v]) : S.chr(T.ite(T.lt(t, T.int(26)), T.add(t, T.int(65)), T.ite(T.lt(t, T.int(52)), T.add(t, T.int(71)), T.ite(T.lt(t, T.int(62)), T.add(t, T.int(-4)), T.ite(T.eq(t, T.int(62)), T.int(43), T.int(47)))))));
const b64chars = new Set();
function b64enc(bytes) {
  if (bytes.every((b) => typeof b === "number")) return Buffer.from(bytes).toString("base64");
  const out = [];
  for (let i = 0; i < bytes.length; i += 3) {
    const from = out.length;
    const a = bt(bytes[i]), b = i + 1 < bytes.length ? bt(bytes[i + 1]) : null, c = i + 2 < bytes.length ? bt(bytes[i + 2]) : null;
    out.push(enc6(T.div(a, T.int(4))));
    out.push(enc6(T.add(T.mul(T.mod(a, T.int(4)), T.int(16)), b ? T.div(b, T.int(16)) : T.int(0))));
    out.push(b ? enc6(T.add(T.mul(T.mod(b, T.int(16)), T.int(4)), c ? T.div(c, T.int(64)) : T.int(0))) : S.lit("="));
    out.push(c ? enc6(T.mod(c, T.int(64))) : S.lit("="));
    const g = out.slice(from).filter((x) => x.k !== "lit" || x.s !== "=").map((x) => (x.k === "lit" ? x.s.charCodeAt(0) : x.t));
    for (const x of g) if (typeof x !== "number") b64chars.add(x); groups.set(gkey(g), bytes.slice(i, i + 3));
  }
  return S.mkStr(out);
}
// a group of four base64 characters built by the encoder decodes to the bytes it was built from
const groups = new Map(); const gkey = (l) => l.map((x) => (typeof x === "number" ? "n" + x : x.op === "int" ? "n" + x.v : x.id)).join(",");
const isB64 = (c) => T.or(T.and(T.le(T.int(65), c), T.le(c, T.int(90))), T.and(T.le(T.int(97), c), T.le(c, T.int(122))), T.and(T.le(T.int(48), c), T.le(c, T.int(57))), T.eq(c, T.int(43)), T.eq(c, T.int(47)));
const dec6 = (c) => T.ite(T.le(T.int(97), c), T.add(c, T.int(-71)), T.ite(T.le(T.int(65), c), T.add(c, T.int(-65)), T.ite(T.le(T.int(48), c), T.add(c, T.int(4)), T.ite(T.eq(c, T.int(43)), T.int(62), T.int(63)))));
class DOMEx extends Error { constructor(m, n) { super(m); Object.defineProperty(this, "name", { value: n }); } }
function quads(cs) { const out = []; for (let i = 0; i < cs.length; i += 4) { const hit = groups.get(gkey(cs.slice(i, i + 4))); if (hit) { out.push(...hit.map(bt)); continue; } const g = cs.slice(i, i + 4).map(dec6); const [a, b, c, d] = g; if (b) out.push(T.add(T.mul(a, T.int(4)), T.div(b, T.int(16)))); if (c) out.push(T.add(T.mul(T.mod(b, T.int(16)), T.int(16)), T.div(c, T.int(4)))); if (d) out.push(T.add(T.mul(T.mod(c, T.int(4)), T.int(64)), d)); } return out.map((t) => wrapByte(t)); }
function atobBytes(s) { // WHATWG forgiving-base64
  let cs = S.chars(s).map(S.ct); cs = cs.filter((c) => b64chars.has(c) || !E.branch(T.or(...[9, 10, 12, 13, 32].map((k) => T.eq(c, T.int(k))))));
  if (cs.length % 4 === 0) { for (let k = 0; k < 2 && cs.length; k++) if (!b64chars.has(cs[cs.length - 1]) && E.branch(T.eq(cs[cs.length - 1], T.int(61)))) cs = cs.slice(0, -1); else break; }
  if (cs.length % 4 === 1) throw new DOMEx("The string to be decoded is not correctly encoded.", "InvalidCharacterError");
  if (!E.branch(T.and(...cs.filter((c) => !b64chars.has(c)).map(isB64)))) throw new DOMEx("Invalid character", "InvalidCharacterError");
  return quads(cs);
}
function bufFromB64(s) { // node: lenient; stop at '=', skip characters outside the alphabet, accept url-safe ones
  const cs = []; for (const c0 of S.chars(s).map(S.ct)) { let c = c0; if (b64chars.has(c)) { cs.push(c); continue; } if (E.branch(T.eq(c, T.int(61)))) break; if (E.branch(T.eq(c, T.int(45)))) c = T.int(43); else if (E.branch(T.eq(c, T.int(95)))) c = T.int(47); else if (!E.branch(isB64(c))) continue; cs.push(c); }
  if (cs.length % 4 === 1) cs.pop(); return quads(cs);
}
const hex2 = (b) => { const t = bt(b); const d = (x) => (x.op === "int" ? S.lit("0123456789abcdef"[x.v]) : S.chr(T.ite(T.lt(x, T.int(10)), T.add(x, T.int(48)), T.add(x, T.int(87))))); return [d(T.div(t, T.int(16))), d(T.mod(t, T.int(16)))]; };
function bufToString(bytes, enc) {
  if (bytes.every((b) => typeof b === "number")) return Buffer.from(bytes).toString(enc);
  switch (enc) { case "base64": return b64enc(bytes); case "hex": return S.mkStr(bytes.flatMap(hex2)); case undefined: case "utf8": case "utf-8": return fromUtf8(bytes); case "latin1": case "binary": return S.mkStr(bytes.map((b) => S.chr(bt(b)))); }
  E.note("buffer encoding " + enc); E.abort("incomplete", "buffer encoding");
}
const mkBuffer = (bytes) => { const b = new SymU8(bytes); b.$isBuffer = true; Object.defineProperty(b, "$isBuffer", { enumerable: false }); return b; };
const SBuffer = {
  from: $.trust((x, enc) => { if (typeof x === "string") return mkBuffer([...Buffer.from(x, enc)]); if (x instanceof SStr) { if (enc === "base64" || enc === "base64url") return mkBuffer(bufFromB64(x)); if (enc === undefined || enc === "utf8" || enc === "utf-8") return mkBuffer(utf8Bytes(x)); E.note("buffer encoding " + enc); E.abort("incomplete", "buffer encoding"); } const b = bytesOf(x); if (b) return mkBuffer(b.slice()); return mkBuffer([...$.iter(x)].map((v) => $.toByte(v))); }),
  isBuffer: $.trust((x) => !!(x && x.$isBuffer) || Buffer.isBuffer(x)), byteLength: $.trust((x) => (typeof x === "string" ? Buffer.byteLength(x) : x instanceof SStr ? utf8Bytes(x).length : x.length)),
  concat: $.trust((l) => mkBuffer(l.flatMap((x) => [...$.iter(x)]))), alloc: $.trust((n) => mkBuffer(new Array(n).fill(0))), allocUnsafe: $.trust((n) => mkBuffer(new Array(n).fill(0))),
};
const hasInst = (C, f) => Object.defineProperty(C, Symbol.hasInstance, { value: $.trust(f) });
function SBufferCtor() { throw new Error("Buffer constructor"); } Object.assign(SBufferCtor, SBuffer); hasInst(SBufferCtor, (x) => SBuffer.isBuffer(x)); SBufferCtor.$trusted = true;
function SU8(x, off, len) { if (!new.target) throw new TypeError("Constructor Uint8Array requires 'new'"); if (x === undefined) return new SymU8([]); if (typeof x === "number" || x instanceof SNum) return new SymU8(new Array(S.forkInt(x)).fill(0)); const b = bytesOf(x); if (b) return new SymU8(off === undefined && x instanceof SymBuf ? b : b.slice(off || 0, len === undefined ? undefined : (off || 0) + len)); return new SymU8([...$.iter(x)].map((v) => $.toByte(v))); }
SU8.prototype = Uint8Array.prototype; SU8.from = $.trust((src, f) => { let l; if (src instanceof SStr) l = S.chars(src).map((c) => S.fromChars([c])); else l = [...$.iter(src)]; return new SymU8(l.map((v, i) => $.toByte(f ? $.invoke(f, undefined, [v, i]) : v instanceof SStr ? $.numOf(v) : v))); }); SU8.of = $.trust((...a) => new SymU8(a.map((v) => $.toByte(v)))); SU8.$trusted = true; SU8.BYTES_PER_ELEMENT = 1;
class STextEncoder { encode(s) { if (s === undefined) return new SymU8([]); s = $.str(s); return new SymU8(typeof s === "string" ? [...new TextEncoder().encode(s)] : utf8Bytes(s)); } get encoding() { return "utf-8"; } }
class STextDecoder { decode(b) { const l = b === undefined ? [] : bytesOf(b); let r = fromUtf8(l); if (typeof r === "string") return r.startsWith("\ufeff") ? r.slice(1) : r; return r; } }
trustAll(STextEncoder); trustAll(STextDecoder);
$.trust(SymU8); 
// ---------- URLs: the address itself is concrete, its path may be set to a symbolic text of already encoded characters
const pathSafe = (c) => T.or(isB64(c), ...[33, 36, 37, 38, 39, 40, 41, 42, 44, 45, 46, 58, 59, 61, 64, 95, 126].map((k) => T.eq(c, T.int(k))));
function normPath(s) {
  const segs = [[]]; for (const c of S.chars(s)) { const t = S.ct(c); if (t.op === "int" ? t.v === 47 : E.branch(T.eq(t, T.int(47)))) segs.push([]); else segs[segs.length - 1].push(t); }
  for (const g of segs) for (const t of g) if (!E.branch(pathSafe(t))) { E.note("URL path with characters the URL standard would encode"); E.abort("incomplete", "URL path"); }
  const is = (g, lits) => lits.some((l) => l.length === g.length && E.branch(T.and(...g.map((t, i) => T.eq(t, T.int(l.charCodeAt(i)))))));
  if (segs[0].length === 0 && segs.length > 1) segs.shift(); const out = [];
  segs.forEach((g, i) => { const last = i === segs.length - 1; if (is(g, [".", "%2e", "%2E"])) { if (last) out.push([]); } else if (is(g, ["..", ".%2e", ".%2E", "%2e.", "%2E.", "%2e%2e", "%2E%2E", "%2e%2E", "%2E%2e"])) { out.pop(); if (last) out.push([]); } else out.push(g); });
  return S.mkStr(out.flatMap((g) => [S.lit("/"), ...g.map((t) => (t.op === "int" ? S.lit(String.fromCharCode(t.v)) : S.chr(t)))]));
}
class SURL {
  constructor(u, base) { if (isSym(u) || isSym(base)) { u = $.str(u); E.note("URL from symbolic text"); E.abort("incomplete", "URL"); } Object.defineProperty(this, "$u", { value: new URL(u, base), enumerable: false }); Object.defineProperty(this, "$p", { value: undefined, enumerable: false, writable: true }); }
  get pathname() { return this.$p === undefined ? this.$u.pathname : this.$p; } set pathname(v) { if (v instanceof SStr) this.$p = normPath(v); else { this.$u.pathname = v; this.$p = undefined; } }
  toString() { if (this.$p === undefined) return this.$u.toString(); const auth = this.$u.username || this.$u.password ? this.$u.username + (this.$u.password ? ":" + this.$u.password : "") + "@" : ""; return S.concat(this.$u.protocol + "//" + auth + this.$u.host, this.$p, this.$u.search + this.$u.hash); }
  get href() { return this.toString(); } toJSON() { return this.toString(); }
}
for (const k of ["hash", "host", "hostname", "origin", "password", "port", "protocol", "search", "searchParams", "username"]) Object.defineProperty(SURL.prototype, k, { get() { return this.$u[k]; }, set(v) { this.$u[k] = v; }, configurable: true });
trustAll(SURL); SURL.canParse = $.trust((...a) => URL.canParse(...a));
// ---------- the environment
const GLOBALS = ["globalThis", "global", "self", "window", "document", "navigator", "Map", "Set", "Error", "TypeError", "RangeError", "SyntaxError", "Date", "Uint8Array", "ArrayBuffer", "TextEncoder", "TextDecoder", "atob", "btoa", "Buffer", "crypto", "Math", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "performance", "console", "process", "fetch", "AbortController", "AbortSignal", "XMLHttpRequest", "Headers", "Response", "Request", "FormData", "Blob", "URL"];
const SErrors = { Error: shadowError(Error), TypeError: shadowError(TypeError), RangeError: shadowError(RangeError), SyntaxError: shadowError(SyntaxError) };
function makeEnv(sym) {
  const ctl = { sym, now: 1700000000000, perf: 1000, timers: [], logs: [], fetches: [], env: {}, onFetch: null, onRandom: null, onHash: null, nextTimer: 1, hashes: [], lcg: 12345, onNow: null };
  const le = (a, b) => (sym ? $.t($.le(a, b)) : a <= b); const add = (a, b) => (sym ? $.add(a, b) : a + b);
  const rnd = () => { ctl.lcg = (Math.imul(ctl.lcg, 1103515245) + 12345) >>> 0; return ctl.lcg / 4294967296; };
  ctl.rnd = rnd;
  const tr = (f) => $.trust(f);
  // clock
  class VDate extends Date {
    constructor(...a) {
      if (a.length === 0) { const n = ctl.onNow ? ctl.onNow() : ctl.now; if (isSym(n)) { super(0); Object.defineProperty(this, "$ms", { value: n, enumerable: false, writable: true }); } else super(n); }
      else if (a.length === 1 && isSym(a[0])) { if (a[0] instanceof SNum) { super(0); Object.defineProperty(this, "$ms", { value: a[0], enumerable: false, writable: true }); } else if (a[0] instanceof SStr && a[0].parts.length === 1 && a[0].parts[0].k === "iso") { super(0); Object.defineProperty(this, "$ms", { value: a[0].parts[0].ms, enumerable: false, writable: true }); } else super(S.concretizeNote(a[0], "date from text")); }
      else if (a.length === 1 && a[0] instanceof Date && a[0].$ms !== undefined) { super(0); Object.defineProperty(this, "$ms", { value: a[0].$ms, enumerable: false, writable: true }); }
      else super(...a);
    }
    getTime() { return this.$ms !== undefined ? this.$ms : super.getTime(); } valueOf() { return this.$ms !== undefined ? this.$ms : super.valueOf(); }
    toISOString() { return this.$ms !== undefined ? $.isoStr(this.$ms) : super.toISOString(); } toJSON() { return this.$ms !== undefined ? $.isoStr(this.$ms) : super.toJSON(); }
    static now() { return ctl.onNow ? ctl.onNow() : ctl.now; }
    static parse(s) { if (s instanceof SStr) { if (s.parts.length === 1 && s.parts[0].k === "iso") return s.parts[0].ms; return Date.parse(S.concretizeNote(s, "Date.parse")); } return Date.parse(s); }
    static [Symbol.hasInstance](x) { return typeof x === "object" && x !== null && Object.prototype.isPrototypeOf.call(Date.prototype, x); }
  }
  Object.defineProperty(VDate, "name", { value: "Date" }); if (sym) trustAll(VDate);
  // timers
  const addTimer = (fn, ms, args, interval) => { const t = { id: ctl.nextTimer++, at: add(ctl.now, ms === undefined ? 0 : ms), ms, fn, args, interval, dead: false, refd: true }; t.ref = tr(function () { t.refd = true; return t; }); t.unref = tr(function () { t.refd = false; return t; }); t.hasRef = tr(() => t.refd); t[Symbol.toPrimitive] = tr(() => t.id); ctl.timers.push(t); return t; };
  const clear = (t) => { if (t === undefined || t === null) return; const x = typeof t === "object" ? t : ctl.timers.find((y) => y.id === t); if (x) { x.dead = true; ctl.timers = ctl.timers.filter((y) => y !== x); } };
  ctl.fire = (t) => { if (t.dead) return; if (!t.interval) { t.dead = true; ctl.timers = ctl.timers.filter((y) => y !== t); } else t.at = add(t.at, t.ms); if (!le(t.at, ctl.now) && !t.interval) ctl.now = t.at; return sym ? $.invoke(t.fn, undefined, t.args) : t.fn(...t.args); };
  ctl.nextDue = () => { let best = null; for (const t of ctl.timers) if (!best || !le(best.at, t.at)) best = t; return best; };
  const RMath = Object.create(Math); Object.defineProperty(RMath, "random", { value: tr(() => (ctl.onRandom ? ctl.onRandom() : rnd())), writable: true, configurable: true });
  const con = {}; for (const m of ["log", "info", "warn", "error", "debug", "trace"]) con[m] = tr((...a) => { ctl.logs.push({ m, a }); });
  const bytes = (n) => Array.from({ length: n }, () => Math.floor(rnd() * 256));
  const cryptoObj = {
    getRandomValues: tr((arr) => { const n = arr.length; for (let i = 0; i < n; i++) { const b = ctl.onByte ? ctl.onByte(i) : Math.floor(rnd() * 256); if (arr.$bytes) arr.$bytes[i] = b; else arr[i] = b; } return arr; }),
    randomUUID: tr(() => { const b = bytes(16); b[6] = (b[6] & 15) | 64; b[8] = (b[8] & 63) | 128; const h = b.map((x) => x.toString(16).padStart(2, "0")).join(""); return `${h.slice(0, 8)}-${h.slice(8, 12)}-${h.slice(12, 16)}-${h.slice(16, 20)}-${h.slice(20)}`; }),
    subtle: { digest: tr(async (alg, data) => ctl.digestBuf(alg, data)) },
  };
  // a hash is a function of its input: equal contents give equal digests, different contents different ones
  ctl.digest = (data) => {
    const b = sym ? bytesOf(data) : [...(data instanceof ArrayBuffer ? new Uint8Array(data) : new Uint8Array(data.buffer, data.byteOffset, data.byteLength))];
    for (const e of ctl.hashes) if (sym ? E.branch(bytesEqTerm(e.b, b)) : e.b.length === b.length && e.b.every((x, i) => x === b[i])) return e.d;
    const d = ctl.onHash ? ctl.onHash(ctl.hashes.length) : (() => { let s = 99 + ctl.hashes.length * 7919; return Array.from({ length: 32 }, () => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return s >>> 24; }); })();
    ctl.hashes.push({ b: b.slice(), d }); return d;
  };
  ctl.digestBuf = (alg, data) => { if (ctl.failHash) throw new Error("digest failed"); const d = ctl.digest(data); return sym ? new SymBuf(d.slice()) : new Uint8Array(d).buffer; };
  ctl.bytes = (l) => (sym ? new SymU8(l.slice()) : new Uint8Array(l));
  ctl.buffer = (l) => (sym ? new SymBuf(l.slice()) : new Uint8Array(l).buffer);
  const proc = { env: ctl.env, versions: { node: "22.0.0" }, version: "v22.0.0", platform: "linux", pid: 1, argv: [], on: tr(() => proc), once: tr(() => proc), off: tr(() => proc), emitWarning: tr(() => {}), hrtime: Object.assign(tr(() => [1, 0]), { bigint: tr(() => 1n) }), cwd: tr(() => "/"), nextTick: tr((f, ...a) => { queueMicrotask(() => (sym ? $.invoke(f, undefined, a) : f(...a))); }) };
  const fetchFn = tr((...a) => { ctl.fetches.push(a); if (!ctl.onFetch) return Promise.reject(new Error("no network")); return sym ? $.invoke(ctl.onFetch, undefined, a) : ctl.onFetch(...a); });
  const G = Object.create(globalThis);
  const g = {
    Map: sym ? SMap : Map, Set: sym ? SSet : Set, ...(sym ? SErrors : { Error, TypeError, RangeError, SyntaxError }), Date: VDate,
    Uint8Array: sym ? SU8 : Uint8Array, ArrayBuffer, TextEncoder: sym ? STextEncoder : TextEncoder, TextDecoder: sym ? STextDecoder : TextDecoder,
    atob: sym ? tr((s) => { s = $.str(s); return typeof s === "string" ? atob(s) : S.mkStr(atobBytes(s).map((b) => S.chr(bt(b)))); }) : atob,
    btoa: sym ? tr((s) => { s = $.str(s); if (typeof s === "string") return btoa(s); const cs = S.chars(s); if (!E.branch(T.and(...cs.map((c) => T.lt(S.ct(c), T.int(256)))))) throw new DOMEx("Invalid character", "InvalidCharacterError"); return b64enc(cs.map((c) => (typeof c === "number" ? c : mkNum(c, 0, 255)))); }) : btoa,
    Buffer: sym ? SBufferCtor : Buffer, crypto: cryptoObj, Math: RMath,
    setTimeout: tr((f, ms, ...a) => addTimer(f, ms, a, false)), clearTimeout: tr(clear), setInterval: tr((f, ms, ...a) => addTimer(f, ms, a, true)), clearInterval: tr(clear), setImmediate: tr((f, ...a) => addTimer(f, 0, a, false)),
    performance: { now: tr(() => ctl.perf), timeOrigin: 1699999999000 }, console: con, process: proc, fetch: fetchFn, AbortController: sym ? trustAbort() : AbortController, AbortSignal, XMLHttpRequest: undefined, Headers, Response, Request, FormData, Blob, URL: sym ? SURL : URL,
    window: undefined, document: undefined, navigator: undefined, self: undefined,
  };
  g.globalThis = g.global = G; for (const k of Object.keys(g)) Object.defineProperty(G, k, { value: g[k], writable: true, configurable: true, enumerable: false });
  ctl.G = G; ctl.g = g; ctl.clearTimers = () => { ctl.timers = []; };
  return { globals: g, ctl };
}
let AC; function trustAbort() { if (!AC) { AC = AbortController; $.safe.add(AC.prototype.abort); } return AC; }
$.safe.add(AbortSignal.prototype.addEventListener); $.safe.add(AbortSignal.prototype.removeEventListener);
module.exports = { makeEnv, GLOBALS, SymU8, SymBuf, bytesOf, bytesEqTerm, b64enc, wrapByte };
