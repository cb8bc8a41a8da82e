"use strict";
// Development tool: functions of packages/*/src never encoded by any check (union of the evidence files).
const fs = require("fs"), path = require("path"); const ts = require("/opt/veriftools/node/node_modules/typescript"); const R = "/repo/packages";
const seen = new Set(); for (const f of fs.readdirSync("/verif/evidence")) if (/^P\d+\.json$/.test(f)) for (const x of JSON.parse(fs.readFileSync("/verif/evidence/" + f)).coverage.functions_encoded || []) seen.add(typeof x === "string" ? x : JSON.stringify(x));
if (process.argv[2]) { console.log([...seen].slice(0, 20)); process.exit(); }
const walk = (d, o = []) => { for (const e of fs.readdirSync(d, { withFileTypes: true })) { const p = path.join(d, e.name); if (e.isDirectory()) { if (!/node_modules|dist|api$/.test(p)) walk(p, o); } else if (/\.ts$/.test(p) && /\/src\//.test(p) && !/test/.test(p)) o.push(p); } return o; };
for (const f of walk(R)) { const sf = ts.createSourceFile(f, fs.readFileSync(f, "utf8"), 99, true); const miss = []; const v = (n) => { if ((ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isGetAccessor(n)) && n.body || ((ts.isArrowFunction(n) || ts.isFunctionExpression(n)) && ts.isVariableDeclaration(n.parent))) { const name = ts.isConstructorDeclaration(n) ? "constructor" : (n.name || n.parent.name).getText(); if (![...seen].some((s) => s.includes(path.relative("/repo/packages", f)) && s.includes(name))) miss.push(name); } ts.forEachChild(n, v); }; v(sf); if (miss.length) console.log(path.relative("/repo", f), miss.join(" ")); }
