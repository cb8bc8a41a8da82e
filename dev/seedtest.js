"use strict";
// Development tool: applies mutants of dev/mutants.js in a scratch copy, builds and tests there; reports whether the stable tests still pass; keeps the diff in /tmp/seed/<id>.diff.
const fs = require("fs"), path = require("path"), { spawnSync } = require("child_process");
const W = process.env.MUT_W || "/tmp/w2"; const M = require("./mutants.js"); const want = process.argv.slice(2);
fs.mkdirSync("/tmp/seed", { recursive: true });
const sh = (c, a, o) => spawnSync(c, a, Object.assign({ encoding: "utf8", maxBuffer: 1e8 }, o || {}));
for (const m of M) {
  if (want.length && !want.includes(m.id) && !want.includes(m.prop)) continue;
  sh("git", ["checkout", "-q", "--", "."], { cwd: W });
  let ok = true; for (const [f, a, b] of m.edits) { const p = path.join(W, "packages", f); const s = fs.readFileSync(p, "utf8"); const re = new RegExp(a.trim().replace(/[.*+?^${}()|[\]\\]/g, "\\$&").replace(/\s+/g, "(?:\\s|//[^\\n]*\\n)+"), "g"); const n = (s.match(re) || []).length; if (n !== 1) { console.log(m.id, "EDIT MATCHES", n, f); ok = false; break; } fs.writeFileSync(p, s.replace(re, () => b)); }
  if (!ok) continue;
  const d = sh("git", ["diff"], { cwd: W }).stdout; const r = sh("bash", [W + ".bt.sh"]);
  if (r.status === 0) fs.writeFileSync(`/tmp/seed/${m.id}.diff`, d);
  console.log(r.status === 0 ? "PASSES" : "tests/build fail", m.id, r.status ? r.stdout.trim().slice(0, 200) : "");
}
sh("git", ["checkout", "-q", "--", "."], { cwd: W });
