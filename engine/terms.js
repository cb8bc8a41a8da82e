"use strict";
// Hash-consed SMT terms with light simplification, an SMT-LIB printer and an evaluator.
// Int/Bool/String terms are evaluated exactly; Real terms are not evaluated (the solver decides them).
let nextId = 1;
const table = new Map();
class Term {
  constructor(op, args, sort, v) { this.op = op; this.args = args; this.sort = sort; this.v = v; this.id = nextId++; let s = 1; for (const a of args) s += a.size; this.size = s; this.txt = null; }
}
function mk(op, args, sort, v) {
  const key = op + "|" + sort + "|" + (v === undefined ? "" : typeof v + ":" + (typeof v === "string" ? JSON.stringify(v) : v)) + "|" + args.map((a) => a.id).join(",");
  let t = table.get(key);
  if (!t) { t = new Term(op, args, sort, v); table.set(key, t); }
  return t;
}
const TRUE = mk("true", [], "Bool"), FALSE = mk("false", [], "Bool");
const bool = (b) => (b ? TRUE : FALSE);
const int = (n) => { if (!Number.isInteger(n)) throw new Error("int const " + n); return mk("int", [], "Int", Object.is(n, -0) ? 0 : n); };
const real = (n) => mk("real", [], "Real", n);
const str = (s) => mk("str", [], "String", s);
const vars = new Map();
function variable(name, sort) { const t = mk("var", [], sort, name); vars.set(name, t); return t; }
const isConst = (t) => t.op === "int" || t.op === "str" || t.op === "true" || t.op === "false" || t.op === "real";
function not(a) {
  if (a === TRUE) return FALSE; if (a === FALSE) return TRUE;
  if (a.op === "not") return a.args[0];
  if (a.op === "<=" ) return lt(a.args[1], a.args[0]);
  if (a.op === "<" ) return le(a.args[1], a.args[0]);
  return mk("not", [a], "Bool");
}
function nary(op, unit, zero, list) {
  const out = []; const seen = new Set();
  for (const x of list) {
    if (x === unit) continue; if (x === zero) return zero;
    const xs = x.op === op ? x.args : [x];
    for (const y of xs) { if (!seen.has(y)) { seen.add(y); out.push(y); } }
  }
  for (const y of out) if (y.op === "not" && seen.has(y.args[0])) return zero;
  if (out.length === 0) return unit; if (out.length === 1) return out[0];
  return mk(op, out, "Bool");
}
const and = (...l) => nary("and", TRUE, FALSE, l.flat());
const or = (...l) => nary("or", FALSE, TRUE, l.flat());
const implies = (a, b) => or(not(a), b);
function eq(a, b) {
  if (a === b) return TRUE;
  if (isConst(a) && isConst(b)) return bool(a.sort === b.sort && a.v === b.v && a.op === b.op);
  if (a.sort === "Bool") { if (a === TRUE) return b; if (b === TRUE) return a; if (a === FALSE) return not(b); if (b === FALSE) return not(a); }
  if (isConst(a)) [a, b] = [b, a];
  if (a.sort === "Int" && b.op === "int") {
    if (a.op === "ite" && a.args[1].op === "int" && a.args[2].op === "int") {
      const x = a.args[1].v === b.v, y = a.args[2].v === b.v;
      if (x && y) return TRUE; if (!x && !y) return FALSE; return x ? a.args[0] : not(a.args[0]);
    }
    if (a.op === "+" && a.args.length === 2 && a.args[1].op === "int") return eq(a.args[0], int(b.v - a.args[1].v));
  }
  if (a.sort !== b.sort) { if (a.sort === "Real" || b.sort === "Real") return mk("=", [toReal(a), toReal(b)], "Bool"); throw new Error("eq sorts " + a.sort + " " + b.sort); }
  if (!isConst(b) && a.id > b.id) [a, b] = [b, a];
  return mk("=", [a, b], "Bool");
}
function toReal(a) { if (a.sort === "Real") return a; if (a.op === "int") return real(a.v); return mk("to_real", [a], "Real"); }
function unify(a, b) { if (a.sort === b.sort) return [a, b]; return [toReal(a), toReal(b)]; }
function le(a, b) { if (a === b) return TRUE; [a, b] = unify(a, b); if (isConst(a) && isConst(b)) return bool(a.v <= b.v); return mk("<=", [a, b], "Bool"); }
function lt(a, b) { if (a === b) return FALSE; [a, b] = unify(a, b); if (isConst(a) && isConst(b)) return bool(a.v < b.v); return mk("<", [a, b], "Bool"); }
const ge = (a, b) => le(b, a), gt = (a, b) => lt(b, a);
function add(a, b) {
  [a, b] = unify(a, b);
  if (isConst(a) && isConst(b) && a.sort === "Int") return int(a.v + b.v);
  if (isConst(a)) [a, b] = [b, a];
  if (isConst(b) && b.v === 0) return a;
  if (a.sort === "Int" && b.op === "int" && a.op === "+" && a.args[1].op === "int") return add(a.args[0], int(a.args[1].v + b.v));
  return mk("+", [a, b], a.sort);
}
function neg(a) { if (a.op === "int") return int(-a.v); if (a.op === "real") return real(-a.v); if (a.op === "neg") return a.args[0]; return mk("neg", [a], a.sort); }
function sub(a, b) { if (a === b) return a.sort === "Int" ? int(0) : real(0); return add(a, neg(b)); }
function mul(a, b) { [a, b] = unify(a, b); if (isConst(a) && isConst(b) && a.sort === "Int") return int(a.v * b.v); if (isConst(a)) [a, b] = [b, a]; if (isConst(b) && b.v === 1) return a; if (isConst(b) && b.v === 0) return b; return mk("*", [a, b], a.sort); }
function div(a, b) { if (a.op === "int" && b.op === "int" && b.v > 0) return int(Math.floor(a.v / b.v)); return mk("div", [a, b], "Int"); }
function mod(a, b) { if (a.op === "int" && b.op === "int" && b.v > 0) return int(a.v - b.v * Math.floor(a.v / b.v)); return mk("mod", [a, b], "Int"); }
function rdiv(a, b) { return mk("/", [toReal(a), toReal(b)], "Real"); }
function toInt(a) { if (a.sort === "Int") return a; if (a.op === "to_real") return a.args[0]; return mk("to_int", [a], "Int"); }
function ite(c, a, b) {
  if (c === TRUE) return a; if (c === FALSE) return b; if (a === b) return a;
  if (a.sort === "Bool") { if (a === TRUE) return or(c, b); if (a === FALSE) return and(not(c), b); if (b === TRUE) return or(not(c), a); if (b === FALSE) return and(c, a); }
  [a, b] = unify(a, b); return mk("ite", [c, a, b], a.sort);
}
// strings (UTF-16 units as z3 bmp characters)
function concat(list) {
  const out = [];
  for (const x of list) for (const y of x.op === "str.++" ? x.args : [x]) {
    if (y.op === "str") { if (y.v === "") continue; const l = out[out.length - 1]; if (l && l.op === "str") { out[out.length - 1] = str(l.v + y.v); continue; } }
    out.push(y);
  }
  if (!out.length) return str(""); if (out.length === 1) return out[0]; return mk("str.++", out, "String");
}
function strlen(a) { if (a.op === "str") return int(a.v.length); if (a.op === "str.++") return a.args.map(strlen).reduce(add); if (a.op === "str.from_code") return int(1); return mk("str.len", [a], "Int"); }
function fromCode(c) { if (c.op === "int") return str(String.fromCharCode(c.v)); return mk("str.from_code", [c], "String"); }
function toCode(s) { if (s.op === "str") return int(s.v.length === 1 ? s.v.charCodeAt(0) : -1); if (s.op === "str.from_code") return s.args[0]; return mk("str.to_code", [s], "Int"); }
function strop(op, args, sort) { const t = mk(op, args, sort); if (args.every(isConst)) { const v = ev(t, null); if (v !== undefined) return sort === "Bool" ? bool(v) : sort === "Int" ? int(v) : str(v); } return t; }
const prefixof = (p, s) => p.op === "str" && p.v === "" ? TRUE : strop("str.prefixof", [p, s], "Bool");
const suffixof = (p, s) => p.op === "str" && p.v === "" ? TRUE : strop("str.suffixof", [p, s], "Bool");
const contains = (s, p) => strop("str.contains", [s, p], "Bool");
const substr = (s, i, n) => strop("str.substr", [s, i, n], "String");
const indexof = (s, p, i) => strop("str.indexof", [s, p, i], "Int");
const fromInt = (n) => strop("str.from_int", [n], "String");
// regular language membership: re is an SMT-LIB RegLan text, test a JS predicate used by the evaluator
const reTests = new Map();
function inRe(s, reText, test) { reTests.set(reText, test); if (s.op === "str") return bool(test(s.v)); return mk("in_re", [s], "Bool", reText); }
const ufs = new Map();
function app(name, args, sort) { ufs.set(name, [args.map((a) => a.sort), sort]); return mk("app", args, sort, name); }

// ---------- printing
function q(s) { let o = '"'; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); if (c === 34) o += '""'; else if (c >= 32 && c < 127 && c !== 92) o += s[i]; else o += "\\u{" + c.toString(16) + "}"; } return o + '"'; }
function num(v, sort) {
  if (sort === "Int") return v < 0 ? `(- ${-v})` : String(v);
  // exact decimal of a double: use a fraction of powers of two
  let n = Math.abs(v), d = 1n; let k = 0; while (!Number.isInteger(n) && k < 1100) { n *= 2; d *= 2n; k++; }
  const t = d === 1n ? `${BigInt(n)}.0` : `(/ ${BigInt(n)}.0 ${d}.0)`;
  return v < 0 ? `(- ${t})` : t;
}
const sym = (name) => "|" + name.replace(/[|\\]/g, "_") + "|";
// names are per sort: one input name may have different sorts on different paths
const vsym = (t) => sym(t.sort === "Int" ? t.v : t.v + "!" + t.sort);
// emit(t, decls): text of t, pushing needed definitions (once) through decls(line)
function emit(t, ctx) {
  if (t.txt && ctx.has(t.id)) return t.txt;
  switch (t.op) {
    case "true": case "false": return t.op;
    case "int": return num(t.v, "Int");
    case "real": return num(t.v, "Real");
    case "str": return q(t.v);
    case "var": { if (!ctx.has(t.id)) { ctx.add(t.id); ctx.decl(`(declare-const ${vsym(t)} ${t.sort})`); } t.txt = vsym(t); return t.txt; }
  }
  const a = t.args.map((x) => emit(x, ctx));
  let s;
  if (t.op === "neg") s = `(- ${a[0]})`;
  else if (t.op === "in_re") s = `(str.in_re ${a[0]} ${t.v})`;
  else if (t.op === "app") {
    if (!ctx.has("uf:" + t.v)) { ctx.add("uf:" + t.v); const [as, r] = ufs.get(t.v); ctx.decl(`(declare-fun ${sym(t.v)} (${as.join(" ")}) ${r})`); }
    s = `(${sym(t.v)} ${a.join(" ")})`;
  } else s = `(${t.op} ${a.join(" ")})`;
  if (t.size > 12) { if (!ctx.has(t.id)) { ctx.add(t.id); ctx.decl(`(define-fun d!${t.id} () ${t.sort} ${s})`); } t.txt = `d!${t.id}`; return t.txt; }
  return s;
}
// ---------- evaluation under a model (Map name -> value); undefined = unknown
function ev(t, model) {
  const memo = model ? model.memo || (model.memo = new Map()) : null;
  const go = (t) => {
    switch (t.op) {
      case "true": return true; case "false": return false;
      case "int": case "str": return t.v;
      case "real": return undefined;
      case "var": { if (!model) return undefined; if (t.sort === "Real") return undefined; const v = model.vals.get(t.v); return v === undefined ? (t.sort === "Int" ? 0 : t.sort === "Bool" ? false : "") : v; }
    }
    if (memo && memo.has(t.id)) return memo.get(t.id);
    const r = step(t);
    if (memo) memo.set(t.id, r);
    return r;
  };
  const step = (t) => {
    if (t.op === "and") { let u = false; for (const x of t.args) { const v = go(x); if (v === false) return false; if (v === undefined) u = true; } return u ? undefined : true; }
    if (t.op === "or") { let u = false; for (const x of t.args) { const v = go(x); if (v === true) return true; if (v === undefined) u = true; } return u ? undefined : false; }
    if (t.op === "ite") { const c = go(t.args[0]); if (c === undefined) return undefined; return go(t.args[c ? 1 : 2]); }
    if (t.sort === "Real" || t.op === "to_int" || t.op === "app") return undefined;
    const a = []; for (const x of t.args) { const v = go(x); if (v === undefined) return undefined; a.push(v); }
    switch (t.op) {
      case "not": return !a[0];
      case "=": return a[0] === a[1];
      case "<=": return a[0] <= a[1];
      case "<": return a[0] < a[1];
      case "+": return a[0] + a[1];
      case "*": return a[0] * a[1];
      case "neg": return a[0] === 0 ? 0 : -a[0];
      case "div": return a[1] > 0 ? Math.floor(a[0] / a[1]) : undefined;
      case "mod": return a[1] > 0 ? a[0] - a[1] * Math.floor(a[0] / a[1]) : undefined;
      case "str.++": return a.join("");
      case "str.len": return a[0].length;
      case "str.from_code": return a[0] >= 0 && a[0] <= 65535 ? String.fromCharCode(a[0]) : "";
      case "str.to_code": return a[0].length === 1 ? a[0].charCodeAt(0) : -1;
      case "str.prefixof": return a[1].startsWith(a[0]);
      case "str.suffixof": return a[1].endsWith(a[0]);
      case "str.contains": return a[0].includes(a[1]);
      case "str.substr": { const [s, i, n] = a; if (i < 0 || i >= s.length || n <= 0) return ""; return s.substr(i, n); }
      case "str.indexof": { const [s, p, i] = a; if (i < 0 || i > s.length) return -1; return s.indexOf(p, i); }
      case "str.from_int": return a[0] < 0 ? "" : String(a[0]);
      case "in_re": { const f = reTests.get(t.v); return f ? f(a[0]) : undefined; }
      case "bvop": return undefined;
    }
    return undefined;
  };
  return go(t);
}
function collectVars(t, out, seen) {
  if (seen.has(t.id)) return; seen.add(t.id);
  if (t.op === "var") out.add(t); for (const a of t.args) collectVars(a, out, seen);
}
module.exports = { vsym, Term, mk, TRUE, FALSE, bool, int, real, str, variable, not, and, or, implies, eq, le, lt, ge, gt, add, sub, neg, mul, div, mod, rdiv, toReal, toInt, ite, concat, strlen, fromCode, toCode, prefixof, suffixof, contains, substr, indexof, fromInt, inRe, app, emit, ev, collectVars, isConst, q, sym, tableSize: () => table.size };
