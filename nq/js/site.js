"use strict";
// node site.js DIR: the deployment switch, the metadata and the local files a penpa-edit directory's page loads.
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const dir = process.argv[2];
const read = (f) => { try { return fs.readFileSync(path.join(dir, f), "utf8"); } catch (e) { return null; } };
const out = { refs: [], errors: [] };
const loaded = [];
const el = () => new Proxy({ attrs: {} }, { set(o, k, v) { o[k] = v; if (k === "src" || k === "href") loaded.push(v); return true; }, get(o, k) { if (k === "setAttribute") return (a, v) => { if (["src", "href", "config"].includes(a)) loaded.push(v); }; return o[k] === undefined ? () => {} : o[k]; } });
const doc = { createElement: el, head: { appendChild() {}, append() {} }, body: { appendChild() {}, append() {} }, getElementById: el, querySelector: el };
const ctx = vm.createContext({ document: doc, console: { log() {} } });
const run = (f, expr) => {
  const code = read(f);
  if (code === null) { out.errors.push(f + " is missing"); return undefined; }
  try { vm.runInContext(code, ctx); return vm.runInContext(expr, ctx); } catch (e) { out.errors.push(`${f}: ${e.message}`); return undefined; }
};
out.deploy = run("prepare_deployment.js", "ENABLE_DEPLOYMENT");
const meta = run("solver_metadata.js", "JSON.stringify(solver_metadata)");
out.meta = meta === undefined ? null : JSON.parse(meta);
const html = read("index.html") || "";
for (const m of html.matchAll(/(?:src|href)\s*=\s*["']([^"']+)["']/g)) loaded.push(m[1]);
for (const f of fs.existsSync(dir) ? fs.readdirSync(dir) : []) if (/^(app|prepare)\w*\.js$/.test(f)) for (const m of (read(f) || "").matchAll(/["'`](\.\/[\w./-]+\.(?:js|py|json|css|wasm|html))["'`]/g)) loaded.push(m[1]);
out.refs = [...new Set(loaded)].filter((u) => typeof u === "string" && u && !/^[a-z]+:|^\/\/|^#|\$\{/i.test(u)).map((u) => u.replace(/[?#].*$/, "").replace(/^\.\//, "")).filter((u) => u);
process.stdout.write(JSON.stringify(out));
