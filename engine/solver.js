"use strict";
// Synchronous SMT solver session over FIFOs (one z3 process per engine process).
const fs = require("fs"), os = require("os"), path = require("path"), cp = require("child_process");
const T = require("./terms.js");
class Solver {
  constructor(opts = {}) {
    this.timeoutMs = opts.timeoutMs || 10000;
    this.queries = 0; this.sat = 0; this.unsat = 0; this.unknown = 0; this.ms = 0; this.restarts = 0;
    this.start();
  }
  start() {
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), "vsmt-"));
    const i = path.join(this.dir, "i"), o = path.join(this.dir, "o");
    cp.execFileSync("mkfifo", [i, o]);
    this.child = cp.spawn("/bin/sh", ["-c", `exec ${process.env.VERIF_Z3 || "z3-new"} -in encoding=bmp smt.random_seed=1 <"${i}" >"${o}" 2>&1`], { stdio: ["ignore", "ignore", "ignore"] });
    this.child.unref();
    this.fdw = fs.openSync(i, "r+"); this.fdr = fs.openSync(o, "r");
    fs.rmSync(this.dir, { recursive: true, force: true });
    this.known = new Set(); this.stack = []; // stack of asserted terms, one push level each
    this.buf = ""; this.out = [];
    this.ctx = { has: (x) => this.known.has(x), add: (x) => this.known.add(x), decl: (l) => this.out.push(l) };
    this.out.push("(set-option :global-declarations true)", `(set-option :timeout ${this.timeoutMs})`, "(set-option :model.completion true)");
  }
  write(s) { let b = Buffer.from(s + "\n"); let off = 0; while (off < b.length) off += fs.writeSync(this.fdw, b, off); }
  flush() { if (this.out.length) { this.write(this.out.filter(Boolean).join("\n")); this.out = []; } }
  // write in pieces while never dead-locking: z3 only answers check-sat/get-value/echo
  readUntil(mark) {
    const chunk = Buffer.allocUnsafe(65536);
    for (;;) {
      const k = this.buf.indexOf(mark);
      if (k >= 0) { const r = this.buf.slice(0, k); this.buf = this.buf.slice(k + mark.length).replace(/^\r?\n/, ""); return r.trim(); }
      const n = fs.readSync(this.fdr, chunk, 0, chunk.length);
      if (n === 0) throw new Error("solver process ended");
      this.buf += chunk.toString("utf8", 0, n);
    }
  }
  ask(cmd) { this.out.push(cmd, '(echo "<<done>>")'); this.flush(); return this.readUntil("<<done>>"); }
  sync(pc) {
    let k = 0; while (k < pc.length && k < this.stack.length && pc[k] === this.stack[k]) k++;
    if (k < this.stack.length) { this.out.push(`(pop ${this.stack.length - k})`); this.stack.length = k; }
    for (; k < pc.length; k++) { const s = T.emit(pc[k], this.ctx); this.out.push("(push 1)", `(assert ${s})`); this.stack.push(pc[k]); }
  }
  // returns {r:'sat'|'unsat'|'unknown', model?}
  check(pc, extra, wantModel) {
    try { return this.check1(pc, extra, wantModel); }
    catch (e) { if (!/solver process ended|EPIPE/.test(String(e))) throw e; this.restarts++; this.unknown++; try { fs.closeSync(this.fdw); fs.closeSync(this.fdr); } catch {} this.start(); return { r: "unknown" }; }
  }
  check1(pc, extra, wantModel) {
    const t0 = process.hrtime.bigint();
    this.queries++;
    this.sync(pc);
    if (extra) { const s = T.emit(extra, this.ctx); this.out.push("(push 1)", `(assert ${s})`); }
    let ans = this.ask("(check-sat)");
    let r = { r: "unknown" };
    if (/\(error/.test(ans)) { this.lastError = ans; if (process.env.VTRACE) process.stderr.write(ans.slice(0, 400) + "\n"); r = { r: "unknown", error: ans }; }
    else if (ans === "unsat") r = { r: "unsat" };
    else if (ans === "sat") { r = { r: "sat" }; if (wantModel) r.model = this.model(extra ? [...pc, extra] : pc); }
    if (extra) this.out.push("(pop 1)");
    if (r.r === "sat") this.sat++; else if (r.r === "unsat") this.unsat++; else this.unknown++;
    this.ms += Number(process.hrtime.bigint() - t0) / 1e6;
    return r;
  }
  model(terms) {
    const vs = new Set(), seen = new Set(); for (const t of terms) T.collectVars(t, vs, seen);
    const vals = new Map(), reals = new Map();
    const list = [...vs];
    if (list.length) {
      const txt = this.ask(`(get-value (${list.map((v) => T.vsym(v)).join(" ")}))`);
      const toks = tokenize(txt); let p = 0;
      const parse = () => { const t = toks[p++]; if (t === "(") { const l = []; while (toks[p] !== ")") { if (p >= toks.length) throw new Error("bad model " + txt); l.push(parse()); } p++; return l; } return t; };
      const l = parse();
      for (let i = 0; i < list.length; i++) {
        const v = list[i], e = l[i][1];
        if (v.sort === "Int") vals.set(v.v, intOf(e));
        else if (v.sort === "Bool") vals.set(v.v, e === "true");
        else if (v.sort === "String") vals.set(v.v, unq(e));
        else if (v.sort === "Real") reals.set(v.v, realOf(e));
      }
    }
    return { vals, reals };
  }
  close() { try { this.out = ["(exit)"]; this.flush(); } catch {} try { fs.closeSync(this.fdw); fs.closeSync(this.fdr); } catch {} try { this.child.kill("SIGKILL"); } catch {} }
}
function intOf(e) { if (Array.isArray(e)) { if (e[0] === "-") return -intOf(e[1]); throw new Error("int " + JSON.stringify(e)); } return Number(e); }
function realOf(e) { if (Array.isArray(e)) { if (e[0] === "-") return e.length === 2 ? -realOf(e[1]) : realOf(e[1]) - realOf(e[2]); if (e[0] === "/") return realOf(e[1]) / realOf(e[2]); return NaN; } return Number(e); }
function unq(e) { return e.slice(1, -1).replace(/""/g, '"').replace(/\\u\{([0-9a-fA-F]+)\}/g, (_, h) => String.fromCharCode(parseInt(h, 16))).replace(/\\u([0-9a-fA-F]{4})/g, (_, h) => String.fromCharCode(parseInt(h, 16))); }
function tokenize(s) {
  const r = []; let i = 0;
  while (i < s.length) {
    const c = s[i];
    if (c === "(" || c === ")") { r.push(c); i++; }
    else if (/\s/.test(c)) i++;
    else if (c === '"') { let j = i + 1; for (;;) { if (s[j] === '"') { if (s[j + 1] === '"') { j += 2; continue; } break; } j++; } r.push(s.slice(i, j + 1)); i = j + 1; }
    else if (c === "|") { const j = s.indexOf("|", i + 1); r.push(s.slice(i, j + 1)); i = j + 1; }
    else { let j = i; while (j < s.length && !/[\s()]/.test(s[j])) j++; r.push(s.slice(i, j)); i = j; }
  }
  return r;
}
module.exports = { Solver };
