"use strict";
// Nothing to build: the checks instrument /repo's sources on every run. Verify the tools are there.
const cp = require("child_process"), fs = require("fs");
const v = cp.spawnSync("z3-new", ["--version"], { encoding: "utf8" }); if (v.status !== 0) { console.error("z3-new missing"); process.exit(1); }
for (const m of ["typescript", "esbuild"]) if (!fs.existsSync("/opt/veriftools/node/node_modules/" + m)) { console.error(m + " missing"); process.exit(1); }
console.log("ok", v.stdout.trim(), process.version);
