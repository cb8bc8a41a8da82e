"use strict";
// JS regular expressions over symbolic character sequences (backtracking, forking on character tests),
// and translation of simple expressions to RegLan for unbounded strings.
const T = require("./terms.js");
const E = require("./state.js");
const S = require("./sym.js");
const cache = new WeakMap();
function parse(re) {
  if (cache.has(re)) return cache.get(re);
  const src = re.source; let p = 0, groups = 0; const names = {};
  const peek = () => src[p];
  function disj() { const alts = [alt()]; while (peek() === "|") { p++; alts.push(alt()); } return alts.length === 1 ? alts[0] : { k: "alt", alts }; }
  function alt() { const items = []; while (p < src.length && peek() !== "|" && peek() !== ")") { items.push(quant(atom())); } return { k: "seq", items }; }
  function quant(a) {
    let min, max; const c = peek();
    if (c === "*") { min = 0; max = Infinity; p++; } else if (c === "+") { min = 1; max = Infinity; p++; } else if (c === "?") { min = 0; max = 1; p++; }
    else if (c === "{") { const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(p)); if (!m) return a; min = +m[1]; max = m[2] ? (m[3] ? +m[3] : Infinity) : min; p += m[0].length; }
    else return a;
    let lazy = false; if (peek() === "?") { lazy = true; p++; }
    return { k: "rep", a, min, max, lazy, g0: a.g0, g1: a.g1 };
  }
  function cls(c) { switch (c) { case "d": return [[48, 57]]; case "w": return [[48, 57], [65, 90], [95, 95], [97, 122]]; case "s": return [[9, 13], [32, 32], [160, 160], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]]; } }
  function escChar() { // after backslash, returns code or {cls}
    const c = src[p++];
    if ("dws".includes(c)) return { r: cls(c), neg: false }; if ("DWS".includes(c)) return { r: cls(c.toLowerCase()), neg: true };
    switch (c) { case "n": return 10; case "r": return 13; case "t": return 9; case "f": return 12; case "v": return 11; case "0": return 0; }
    if (c === "x") { const h = src.slice(p, p + 2); p += 2; return parseInt(h, 16); }
    if (c === "u") { if (src[p] === "{") { const e = src.indexOf("}", p); const v = parseInt(src.slice(p + 1, e), 16); p = e + 1; return v; } const h = src.slice(p, p + 4); p += 4; return parseInt(h, 16); }
    if (c === "c") { return src.charCodeAt(p++) % 32; }
    return c.charCodeAt(0);
  }
  const complement = (r) => { const s = [...r].sort((a, b) => a[0] - b[0]); const out = []; let n = 0; for (const [a, b] of s) { if (a > n) out.push([n, a - 1]); n = Math.max(n, b + 1); } if (n <= 65535) out.push([n, 65535]); return out; };
  function atom() {
    const c = src[p];
    if (c === "(") {
      p++;
      if (src.startsWith("?:", p)) { p += 2; const g0 = groups; const d = disj(); p++; return { k: "grp", a: d, g0, g1: groups }; }
      if (src.startsWith("?=", p) || src.startsWith("?!", p)) { const neg = src[p + 1] === "!"; p += 2; const d = disj(); p++; return { k: "look", a: d, neg }; }
      if (src.startsWith("?<=", p) || src.startsWith("?<!", p)) { const neg = src[p + 2] === "!"; p += 3; const d = disj(); p++; return { k: "lookb", a: d, neg }; }
      let name = null; const m = /^\?<([A-Za-z_$][\w$]*)>/.exec(src.slice(p)); if (m) { name = m[1]; p += m[0].length; }
      const g0 = groups; const n = ++groups; if (name) names[name] = n; const d = disj(); p++; return { k: "cap", a: d, n, g0, g1: groups };
    }
    if (c === "[") {
      p++; let neg = false; if (src[p] === "^") { neg = true; p++; } const r = [];
      const one = () => { if (src[p] === "\\") { p++; if (src[p] === "b") { p++; return 8; } return escChar(); } return src.charCodeAt(p++); };
      while (src[p] !== "]") {
        const a = one();
        if (typeof a === "object") { r.push(...(a.neg ? complement(a.r) : a.r)); continue; }
        if (src[p] === "-" && src[p + 1] !== "]") { p++; const b = one(); if (typeof b === "object") { r.push([a, a], [45, 45], ...(b.neg ? complement(b.r) : b.r)); } else r.push([a, b]); } else r.push([a, a]);
      }
      p++; return { k: "set", r: neg ? complement(r) : r };
    }
    if (c === ".") { p++; return { k: "set", r: re.flags.includes("s") ? [[0, 65535]] : complement([[10, 10], [13, 13], [0x2028, 0x2029]]) }; }
    if (c === "^") { p++; return { k: "bol" }; } if (c === "$") { p++; return { k: "eol" }; }
    if (c === "\\") {
      p++; if (src[p] === "b" || src[p] === "B") { const neg = src[p] === "B"; p++; return { k: "wb", neg }; }
      if (/[1-9]/.test(src[p])) { const m = /^\d+/.exec(src.slice(p)); p += m[0].length; return { k: "ref", n: +m[0] }; }
      if (src[p] === "k") { const m = /^k<([^>]+)>/.exec(src.slice(p)); if (m) { p += m[0].length; return { k: "ref", n: names[m[1]] }; } }
      const e = escChar(); return typeof e === "object" ? { k: "set", r: e.neg ? complement(e.r) : e.r } : { k: "set", r: [[e, e]] };
    }
    p++; return { k: "set", r: [[c.charCodeAt(0), c.charCodeAt(0)]] };
  }
  const ast = disj(); if (p < src.length) throw new Error("regex parse " + src);
  const r = { ast, groups, names, i: re.flags.includes("i"), m: re.flags.includes("m") };
  cache.set(re, r); return r;
}
function inRanges(c, r, ic) {
  if (typeof c === "number") { const t = (x) => r.some(([a, b]) => a <= x && x <= b); if (t(c)) return T.TRUE; if (ic) { const s = String.fromCharCode(c); return T.bool(t(s.toLowerCase().charCodeAt(0)) || t(s.toUpperCase().charCodeAt(0))); } return T.FALSE; }
  const one = (c) => T.or(...r.map(([a, b]) => (a === b ? T.eq(c, T.int(a)) : T.and(a > 0 ? T.le(T.int(a), c) : T.TRUE, b < 65535 ? T.le(c, T.int(b)) : T.TRUE))));
  if (!ic) return one(c);
  const lo = T.ite(T.and(T.le(T.int(65), c), T.le(c, T.int(90))), T.add(c, T.int(32)), c), up = T.ite(T.and(T.le(T.int(97), c), T.le(c, T.int(122))), T.add(c, T.int(-32)), c);
  return T.or(one(c), one(lo), one(up));
}
const WORD = [[48, 57], [65, 90], [95, 95], [97, 122]];
// match at position i; returns {end, caps} or null. caps: array of [start,end]
function matchAt(prog, cs, i) {
  const m = (n, i, caps, k) => {
    E.tick();
    switch (n.k) {
      case "set": if (i >= cs.length) return null; return E.branch(inRanges(cs[i], n.r, prog.i)) ? k(i + 1, caps) : null;
      case "seq": { const go = (idx, i, caps) => (idx === n.items.length ? k(i, caps) : m(n.items[idx], i, caps, (j, c) => go(idx + 1, j, c))); return go(0, i, caps); }
      case "alt": for (const a of n.alts) { const r = m(a, i, caps, k); if (r) return r; } return null;
      case "grp": return m(n.a, i, caps, k);
      case "cap": return m(n.a, i, caps, (j, c) => { const d = c.slice(); d[n.n] = [i, j]; return k(j, d); });
      case "rep": {
        const clear = (caps) => { if (n.g1 > n.g0) { const d = caps.slice(); for (let g = n.g0 + 1; g <= n.g1; g++) d[g] = undefined; return d; } return caps; };
        const go = (count, i, caps) => {
          const more = () => (count < n.max ? m(n.a, i, clear(caps), (j, c) => (j === i && count >= n.min ? null : go(count + 1, j, c))) : null);
          if (count < n.min) return more();
          if (n.lazy) return k(i, caps) || more();
          return more() || k(i, caps);
        };
        return go(0, i, caps);
      }
      case "look": { const r = m(n.a, i, caps, (j, c) => ({ end: j, caps: c })); if (n.neg) return r ? null : k(i, caps); return r ? k(i, r.caps) : null; }
      case "lookb": { let r = null; for (let s = i; s >= 0 && !r; s--) r = m(n.a, s, caps, (j, c) => (j === i ? { end: j, caps: c } : null)); if (n.neg) return r ? null : k(i, caps); return r ? k(i, r.caps) : null; }
      case "bol": if (i === 0) return k(i, caps); if (prog.m && E.branch(inRanges(cs[i - 1], [[10, 10], [13, 13], [0x2028, 0x2029]]))) return k(i, caps); return null;
      case "eol": if (i === cs.length) return k(i, caps); if (prog.m && E.branch(inRanges(cs[i], [[10, 10], [13, 13], [0x2028, 0x2029]]))) return k(i, caps); return null;
      case "wb": { const w = (j) => j >= 0 && j < cs.length && E.branch(inRanges(cs[j], WORD)); const b = w(i - 1) !== w(i); return b !== n.neg ? k(i, caps) : null; }
      case "ref": { const g = caps[n.n]; if (!g) return k(i, caps); const L = g[1] - g[0]; if (i + L > cs.length) return null; for (let x = 0; x < L; x++) if (!E.branch(T.eq(S.ct(cs[g[0] + x]), S.ct(cs[i + x])))) return null; return k(i + L, caps); }
    }
    throw new Error("regex node " + n.k);
  };
  return m(prog.ast, i, [], (j, c) => ({ end: j, caps: c }));
}
function execFrom(prog, cs, from, sticky) { for (let i = from; i <= cs.length; i++) { const r = matchAt(prog, cs, i); if (r) return { start: i, ...r }; if (sticky) return null; } return null; }
function result(prog, s, cs, r) {
  const out = [S.fromChars(cs.slice(r.start, r.end))];
  for (let g = 1; g <= prog.groups; g++) out.push(r.caps[g] ? S.fromChars(cs.slice(r.caps[g][0], r.caps[g][1])) : undefined);
  out.index = r.start; out.input = s; out.groups = undefined;
  if (Object.keys(prog.names).length) { out.groups = Object.create(null); for (const n of Object.keys(prog.names)) out.groups[n] = out[prog.names[n]]; }
  return out;
}
function exec(re, s) {
  const prog = parse(re), cs = S.chars(s); const gy = re.global || re.sticky;
  const from = gy ? re.lastIndex : 0; if (from > cs.length) { re.lastIndex = 0; return null; }
  const r = execFrom(prog, cs, from, re.sticky);
  if (!r) { if (gy) re.lastIndex = 0; return null; }
  if (gy) re.lastIndex = r.end;
  return result(prog, s, cs, r);
}
function all(re, s) { const prog = parse(re), cs = S.chars(s); const out = []; let i = 0; while (i <= cs.length) { const r = execFrom(prog, cs, i, re.sticky); if (!r) break; out.push({ r, res: result(prog, s, cs, r) }); i = r.end > r.start ? r.end : r.end + 1; } return { out, cs }; }
function test(re, s) {
  if (!re.global && !re.sticky) {
    // unbounded or undecided parts: one language-membership term instead of forking per character
    const ps = S.partsOf(s);
    if (ps.length && ps.some((p) => p.k === "trm")) { const L = toRegLan(re); if (L) return S.mkBool(T.inRe(S.toTerm(s), L, (v) => new RegExp(re.source, re.flags).test(v))); }
    if (ps.length === 1 && ps[0].k === "var") { const t = simpleTest(parse(re), ps[0]); if (t) return S.mkBool(t); }
    return execFrom(parse(re), S.chars(s), 0, false) !== null;
  }
  return exec(re, s) !== null;
}
// ^set{+,*}$ on a bounded variable: no fork
function simpleTest(prog, v) {
  const it = prog.ast.k === "seq" ? prog.ast.items : null;
  if (!it || prog.m || it.length !== 3 || it[0].k !== "bol" || it[2].k !== "eol" || it[1].k !== "rep" || it[1].a.k !== "set" || it[1].max !== Infinity) return null;
  return T.and(T.ge(v.len, T.int(it[1].min)), ...v.chars.map((c, i) => T.implies(T.lt(T.int(i), v.len), inRanges(c, it[1].a.r, prog.i))));
}
// search semantics: Sigma* r Sigma*, anchors only at the outer ends, leading lookaheads only
function toRegLan(re) {
  const prog = parse(re); if (prog.i || prog.m) return null;
  const ch = (c) => T.q(String.fromCharCode(c));
  const set = (r) => { const l = r.map(([a, b]) => `(re.range ${ch(a)} ${ch(b)})`); return l.length === 0 ? "re.none" : l.length === 1 ? l[0] : `(re.union ${l.join(" ")})`; };
  const seqj = (l) => (l.length === 0 ? '(str.to_re "")' : l.length === 1 ? l[0] : `(re.++ ${l.join(" ")})`);
  class No extends Error {}
  const go = (n) => {
    switch (n.k) {
      case "set": return set(n.r); case "seq": return seqj(n.items.map(go)); case "alt": return `(re.union ${n.alts.map(go).join(" ")})`; case "grp": case "cap": return go(n.a);
      case "rep": { const a = go(n.a); if (n.min === 0 && n.max === Infinity) return `(re.* ${a})`; if (n.min === 1 && n.max === Infinity) return `(re.+ ${a})`; if (n.min === 0 && n.max === 1) return `(re.opt ${a})`; if (n.max === Infinity) return `(re.++ ((_ re.^ ${n.min}) ${a}) (re.* ${a}))`; return `((_ re.loop ${n.min} ${n.max}) ${a})`; }
    }
    throw new No();
  };
  const top = (n) => {
    if (n.k === "alt") return `(re.union ${n.alts.map(top).join(" ")})`;
    if ((n.k === "grp" || n.k === "cap")) return top(n.a);
    if (n.k !== "seq") return `(re.++ re.all ${go(n)} re.all)`;
    let items = n.items.slice(), pre = "re.all", post = "re.all", looks = [];
    if (items[0] && items[0].k === "bol") { pre = null; items.shift(); while (items[0] && items[0].k === "look") { const l = items.shift(); const L = endTop(l.a); looks.push(l.neg ? `(re.comp ${L})` : L); } }
    if (items.length && items[items.length - 1].k === "eol") { post = null; items.pop(); }
    let r = seqj([pre, ...items.map(go), post].filter(Boolean));
    for (const l of looks) r = `(re.inter ${l} ${r})`;
    return r;
  };
  const endTop = (n) => { // lookahead body at the start of the string: body Sigma*
    if (n.k === "alt") return `(re.union ${n.alts.map(endTop).join(" ")})`;
    if (n.k === "seq" && n.items.length && n.items[n.items.length - 1].k === "eol") return seqj(n.items.slice(0, -1).map(go));
    return `(re.++ ${go(n)} re.all)`;
  };
  try { return top(prog.ast); } catch (e) { if (e instanceof No) return null; throw e; }
}
function replace(re, s, repl, callf) {
  const prog = parse(re); let list, cs;
  if (re.global) { const a = all(re, s); list = a.out; cs = a.cs; re.lastIndex = 0; } else { cs = S.chars(s); const r = execFrom(prog, cs, 0, re.sticky); list = r ? [{ r, res: result(prog, s, cs, r) }] : []; }
  let out = "", last = 0;
  for (const { r, res } of list) {
    out = S.concat(out, S.fromChars(cs.slice(last, r.start)));
    const groups = res.slice(1);
    out = S.concat(out, callf ? callf(res[0], groups, r.start, s) : S.substitute(repl, res[0], () => S.fromChars(cs.slice(0, r.start)), () => S.fromChars(cs.slice(r.end)), groups));
    last = r.end;
  }
  return S.concat(out, S.fromChars(cs.slice(last)));
}
function split(re, s, limit) {
  const prog = parse(re), cs = S.chars(s); const out = []; let p = 0, i = 0;
  if (cs.length === 0) return matchAt(prog, cs, 0) ? [] : [s];
  while (i < cs.length) { const r = matchAt(prog, cs, i); if (!r || r.end === p) { i++; continue; } if (r.end > cs.length) break; out.push(S.fromChars(cs.slice(p, i))); for (let g = 1; g <= prog.groups; g++) out.push(r.caps[g] ? S.fromChars(cs.slice(...r.caps[g])) : undefined); p = r.end; i = p === i ? i + 1 : p; }
  out.push(S.fromChars(cs.slice(p))); return limit === undefined ? out : out.slice(0, limit);
}
module.exports = { parse, exec, all, test, replace, split, toRegLan };
