"use strict";
// Writes MANIFEST.json from properties.jsonl and the harness files present.
const fs = require("fs"), path = require("path"); const V = path.resolve(__dirname, "..");
const props = fs.readFileSync(path.join(V, "properties.jsonl"), "utf8").trim().split("\n").map((l) => JSON.parse(l));
const checks = [], na = [];
for (const p of props) {
  const f = path.join(V, "props", p.id + ".js");
  if (!fs.existsSync(f)) { na.push({ property: p.id, reason: "no check built" }); continue; }
  const m = require(f);
  checks.push({ property: p.id, quick_cmd: `node engine/main.js ${p.id}`, thorough_cmd: `node engine/main.js ${p.id} --tier thorough`, technique: "symbolic execution of the real TypeScript sources (instrumented on every run) with z3 deciding every branch and assertion over symbolic inputs, schedules and faults; counterexamples replayed natively", level: "model_checking", level_note: m.levelNote || "Holds for every value of the symbolic inputs within the stated bounds (string sizes, list sizes, steps); the environment stubs and what lies outside the bounds are listed in the evidence file and DESIGN.md." });
}
const man = { version: 1, setup_cmd: "node engine/setup.js", checks, not_applicable: na };
fs.writeFileSync(path.join(V, "MANIFEST.json"), JSON.stringify(man, null, 1) + "\n");
console.log(checks.length, "checks", na.length, "not applicable");
