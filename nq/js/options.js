"use strict";
// Prints the solver options the page passes to the in-browser engine.
const { Page } = require("./page.js");
(async () => {
  const p = new Page(true);
  p.byId("type").value = "aqre"; p.byId("type").dispatch("change");
  p.solve.dispatch("click"); await p.settle();
  console.log(JSON.stringify(p.runs.map((r) => r.options)));
})();
