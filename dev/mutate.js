"use strict";
// Development tool: applies each mutant of dev/mutants.js to a scratch copy of /repo and runs its property's check there.
// usage: node dev/mutate.js [id-prefix ...]   (scratch copy: /tmp/w1, made with cp -a /repo /tmp/w1)
const fs = require("fs"), path = require("path"), { spawnSync } = require("child_process");
const W = process.env.MUT_W || "/tmp/w1"; const M = require("./mutants.js"); const want = process.argv.slice(2);
const sh = (c, a, o) => spawnSync(c, a, Object.assign({ encoding: "utf8", maxBuffer: 1e8 }, o || {}));
for (const m of M) {
  if (want.length && !want.some((w) => m.id.startsWith(w) || m.prop === w)) continue;
  sh("git", ["checkout", "-q", "--", "."], { cwd: W });
  let ok = true; for (const [f, a, b] of m.edits) { const p = path.join(W, "packages", f); const s = fs.readFileSync(p, "utf8"); const re = new RegExp(a.trim().replace(/[.*+?^${}()|[\]\\]/g, "\\$&").replace(/\s+/g, "(?:\\s|//[^\\n]*\\n)+"), "g"); const n = (s.match(re) || []).length; if (n !== 1 && !m.first) { console.log(m.id, "EDIT MATCHES", n, f, JSON.stringify(a).slice(0, 80)); ok = false; break; } fs.writeFileSync(p, s.replace(re, () => b)); }
  if (!ok) continue;
  const t = Date.now(); const r = sh("node", ["engine/main.js", m.prop].concat(process.env.MUT_ONLY ? ["--only", process.env.MUT_ONLY] : []), { cwd: "/verif", env: Object.assign({}, process.env, { VERIF_REPO: W, VERIF_SEED: "1", VERIF_TIER: "quick" }) });
  const out = r.stdout + r.stderr; const v = /VIOLATION/.test(out); const msg = (out.match(/(assert\S*|violated|fail\S*)[^\n]*/i) || [""])[0].slice(0, 120);
  console.log(`${v && r.status === 1 ? "caught" : "MISSED rc=" + r.status} ${m.id} ${((Date.now() - t) / 1000).toFixed(0)}s ${v ? "" : out.trim().split("\n").pop().slice(0, 150)}`);
}
sh("git", ["checkout", "-q", "--", "."], { cwd: W });
