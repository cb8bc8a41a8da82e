"use strict";
// One exploration job: node worker.js <job.json> <out.json>
const fs = require("fs");
const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const { explore } = require("./explore.js");
const meta = require(job.file).harnesses.find((x) => x.name === job.name);
(async () => {
  let last = Date.now();
  const R = await explore({ file: job.file, name: job.name, run: { params: job.params, tier: job.tier, seed: job.seed, meta: meta.meta || {} }, timeLimitMs: job.timeLimitMs, maxPaths: job.maxPaths, onProgress: (R, left) => { if (process.env.VERIF_PROGRESS && Date.now() - last > 2000) { last = Date.now(); console.error(`${job.name} ${JSON.stringify(job.params)} paths=${R.paths} left=${left}`); } } });
  fs.writeFileSync(process.argv[3], JSON.stringify(R));
  process.exit(0);
})().catch((e) => { console.error(e); process.exit(4); });
