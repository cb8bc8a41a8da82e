"use strict";
// node engine/replay.js <replay.json>: runs one counterexample against the uninstrumented code.
const fs = require("fs");
const r = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const { runNative } = require("./explore.js");
const meta = require(r.file).harnesses.find((x) => x.name === r.harness);
runNative(r.file, r.harness, { params: r.params, tier: r.tier, meta: meta.meta || {} }, new Map(Object.entries(r.inputs))).then((rec) => {
  console.log(JSON.stringify({ failures: rec.failures, observed: rec.observed }, (k, v) => (v instanceof Error ? { error: v.message, stack: v.stack } : v), 1));
  if (rec.exception) console.log(rec.exception.stack);
  process.exit(rec.failures.length ? 1 : 0);
});
