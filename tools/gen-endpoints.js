"use strict";
// Development-time only: writes props/endpoints.json, the table of API endpoints used as the specification by P26
// (HTTP method, path, query parameters and body of every method of the API client). Reviewed by hand; no check runs this.
const fs = require("fs"), path = require("path"), ts = require("/opt/veriftools/node/node_modules/typescript");
const base = "/repo/packages/core/src/api/api/resources"; const out = [];
const walk = (d, names) => { for (const n of fs.readdirSync(d)) { const c = path.join(d, n, "client", "Client.ts"); if (fs.existsSync(c)) one(c, [...names, n]); const r = path.join(d, n, "resources"); if (fs.existsSync(r)) walk(r, [...names, n]); } };
function one(file, res) {
  const sf = ts.createSourceFile(file, fs.readFileSync(file, "utf8"), ts.ScriptTarget.Latest, true);
  const visit = (n) => {
    if (ts.isMethodDeclaration(n) && n.name.getText().startsWith("__")) {
      const name = n.name.getText().slice(2), t = n.getText(); const params = n.parameters.map((p) => p.name.getText()).filter((p) => p !== "requestOptions");
      const verb = /method: "(\w+)"/.exec(t)[1]; const pm = /core\.Supplier\.get\(this\._options\.environment\)\),\s*(`[^`]*`|"[^"]*")/.exec(t); const p = pm[1].slice(1, -1).replace(/\$\{encodeURIComponent\((\w+)\)\}/g, "{$1}");
      const query = []; const q = (x, cond) => { if (ts.isIfStatement(x)) cond = true; if (ts.isBinaryExpression(x) && /^_queryParams\["/.test(x.left.getText())) { const key = /"(.*)"/.exec(x.left.getText())[1], arg = /^\w+/.exec(x.right.getText())[0], list = x.right.getText().includes(".map("); const old = query.find((o) => o.key === key); if (old) old.list = old.list || list; else query.push({ arg, key, list, required: !cond }); } ts.forEachChild(x, (c) => q(c, cond)); }; q(n, false);
      const destr = /const \{([^}]*)\} =\s*request;/.exec(t); const alias = {}; if (destr) for (const f of destr[1].split(",")) { const [a, b] = f.trim().split(/:\s*/); if (b) alias[b] = a; }
      for (const q of query) if (alias[q.arg]) q.arg = alias[q.arg]; for (const m of [...p.matchAll(/\{(\w+)\}/g)]) if (!params.includes(m[1])) console.log("path param from request", res.join("."), name, p);
      const body = /body: request\b/.test(t) ? "request" : /body: _body/.test(t) ? "rest" : (t.match(/body: \{[^}]*\}/) || [])[0]; const isVoid = /WithRawResponse<void>/.test(t); const errs = [...t.matchAll(/case (\d+):\s*throw new LangfuseAPI\.(?:[\w.]+\.)?(\w+)\(/g)].map((m) => [Number(m[1]), m[2]]);
      out.push({ res: res.join("."), name, params, verb, path: p, query, body, void: isVoid, errs: Object.fromEntries(errs), doc: (/Timeout exceeded when calling ([A-Z]+ [^"\s]+)\."/.exec(t) || [])[1] });
    }
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
walk(base, []); fs.writeFileSync(path.join(__dirname, "../props/endpoints.json"), JSON.stringify(out.map((e) => JSON.stringify(e)), null, 0).replace(/^\[|\]$/g, "") && "[\n" + out.map((e) => JSON.stringify(e)).join(",\n") + "\n]\n");
console.log(out.length);
