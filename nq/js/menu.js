"use strict";
// node menu.js METADATA_FILE: the page's menu and the request it sends for every example of every type.
const fs = require("fs");
const vm = require("vm");
const { Page } = require("./page.js");
(async () => {
  const ctx = vm.createContext({});
  vm.runInContext(fs.readFileSync(process.argv[2], "utf8"), ctx);
  const meta = JSON.parse(vm.runInContext("JSON.stringify(solver_metadata)", ctx));
  const out = { meta, menu: [], requests: {}, errors: [] };
  const base = new Page(false, meta);
  out.errors.push(...base.errors);
  for (const g of base.choices.get("type").list || []) for (const c of g.choices || []) out.menu.push({ group: g.label, value: c.value, label: c.label, props: c.customProperties });
  for (const t of Object.keys(meta)) {
    out.requests[t] = [];
    for (const i of [null, ...meta[t].examples.keys()]) {
      const p = new Page(false, meta);
      const e = p.byId("type"); e.value = t; e.dispatch("change"); await p.settle();
      const offered = (p.choices.get("example").list || []).map((c) => String(c.value));
      if (i !== null) { const x = p.byId("example"); x.value = String(i); x.dispatch("change"); await p.settle(); }
      const board = p.board;
      p.solve.dispatch("click"); await p.settle();
      out.requests[t].push({ example: i, offered, board, request: p.requests.length === 1 ? p.requests[0].body : null, errors: p.errors });
    }
  }
  process.stdout.write(JSON.stringify(out));
})();
