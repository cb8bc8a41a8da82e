"use strict";
// Writes DESIGN.md from the harnesses, properties, findings, planted bugs and the handwritten texts beside this file.
const fs = require("fs"), path = require("path"); const V = path.join(__dirname, "..");
const props = fs.readFileSync(path.join(V, "properties.jsonl"), "utf8").trim().split("\n").map((l) => JSON.parse(l));
const notes = JSON.parse(fs.readFileSync(path.join(__dirname, "design-notes.json"), "utf8")); const find = JSON.parse(fs.readFileSync(path.join(V, "known-findings.json"), "utf8")).findings;
const seeds = fs.existsSync(path.join(V, "seeded")) ? fs.readdirSync(path.join(V, "seeded")).sort().map((id) => Object.assign({ id }, JSON.parse(fs.readFileSync(path.join(V, "seeded", id, "meta.json"), "utf8")))) : [];
let out = fs.readFileSync(path.join(__dirname, "design-head.md"), "utf8") + "## Properties\n";
for (const p of props) {
  const m = require(path.join(V, "props", p.id + ".js")); out += `\n### ${p.id} ${p.title}\n\n${notes[p.id]}\n\nCode: ${p.anchors.files.map((f) => "`" + f + "`").join(", ")}. Why tests do not settle it: ${p.why_tests_cant}\n\n`;
  for (const h of m.harnesses) out += `* *${h.name}* — ${h.bounds}${h.thorough ? "; deeper in the thorough tier" : ""}\n`;
  if ((m.assumptions || []).length) out += `\nAssumptions: ${m.assumptions.join("; ")}.\n`;
  const s = seeds.filter((x) => x.property === p.id); if (s.length) out += `\nPlanted: ${s.map((x) => "`" + x.id + "`").join(", ")}.\n`;
  const f = find.filter((x) => x.property === p.id); if (f.length) out += `\nDefects found here and repaired:\n${f.map((x) => `* ${x.entry.replace(/^fixed: property=\S+ /, "")}`).join("\n")}\n`;
}
out += "\n## Planted bugs and the checks that catch them\n\nEvery planted bug keeps the test suite green; each is caught by the quick check of its property.\n\n| bug | property | needs |\n|---|---|---|\n" + seeds.map((s) => `| ${s.id} | ${s.property} | ${String(s.needs).replace(/\|/g, "/").replace(/\n/g, " ")} |`).join("\n") + "\n\n" + fs.readFileSync(path.join(__dirname, "design-tail.md"), "utf8");
fs.writeFileSync(path.join(V, "DESIGN.md"), out);
