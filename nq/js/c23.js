"use strict";
// Explores sequences of user actions and replies on the page and compares it with a reference model after every step.
// node c23.js MODE FULLDEPTH HASHDEPTH SHARD SHARDS [SEQUENCE]; prints one JSON object.
const { Page, META } = require("./page.js");
const [mode, full, deep, shard, shards, only] = [process.argv[2], +process.argv[3], +process.argv[4], +process.argv[5], +process.argv[6], process.argv[7]];
const DEPLOYED = mode === "deployed";
const TYPES = Object.keys(META);
const EDITS = ["m=edit&p=E1", "m=edit&p=creekE2"];
const REPLIES = DEPLOYED ? ["ok1", "ok2", "ok10", "unsat", "error", "reject", "store"] : ["ok1", "ok2", "ok10", "ok0", "400", "500", "504", "net", "badjson"];
const LATE = DEPLOYED ? ["ok2", "error", "reject"] : ["ok1", "ok2", "ok0", "400", "504", "net"];
const OTHER = { checkbox: (v) => !v, number: () => "3", text: () => "XYZ", select: (v, d) => Object.keys(d)[1] };

function defaults(type) {
  const out = {};
  for (const [k, v] of Object.entries(META[type].parameters)) out[k] = v.type === "select" ? Object.keys(v.default)[0] : v.type === "checkbox" ? v.default : String(v.default);
  return out;
}
function configured(type, i) {
  const out = defaults(type), ex = META[type].examples[i];
  for (const [k, v] of Object.entries(META[type].parameters)) if (ex.config && ex.config[k] !== undefined) out[k] = v.type === "checkbox" ? ex.config[k] : String(ex.config[k]);
  return out;
}
const exampleBoard = (type, i) => META[type].examples[i].data || META[type].examples[i].url;

class Run {
  constructor() {
    this.page = new Page(DEPLOYED);
    // reference model
    this.m = { type: "", params: {}, phase: "idle", board: "START", saved: null, list: [], at: -1, cur: null, edits: 0, set: false, loaded: null };
    this.rid = 0; this.steps = 0; this.last = [];
  }
  events() {
    const p = this.page, m = this.m, out = [];
    if (p.enabled("type")) for (const t of TYPES) if (t !== m.type || m.set) out.push("type:" + t);
    if (m.type && p.enabled("example")) { for (let i = 0; i < META[m.type].examples.length; i++) out.push("ex:" + i); out.push("ex:"); }
    if (m.type && Object.keys(m.params).length) out.push("set");
    out.push("edit");
    if (p.enabled("solve") && (m.phase === "showing" || p.live().length < 2)) { out.push("solve"); if (DEPLOYED && m.type && m.phase === "idle") out.push("solve!prepare", "solve!program"); }
    out.push("reset");
    p.live().forEach((q, i) => { if (i < 2) for (const r of q.rid === m.cur ? REPLIES : LATE) out.push(`reply${i}:${r}`); });
    return out;
  }
  async step(ev) {
    const p = this.page, m = this.m;
    this.steps++; this.last = [this.last[1], ev];
    const [what, arg] = ev.split(":");
    const before = { board: p.board, text: p.solve.textContent, off: p.solve.disabled, sel: p.enabled("type"), n: p.requests.length, live: p.live().length };
    let bad = null;
    if (what === "type") {
      const e = p.byId("type"); e.value = arg; e.dispatch("change"); await p.settle();
      m.type = arg; m.params = defaults(arg); m.set = false;
      for (const k of Object.keys(m.params)) if (!p.byId("param_" + k)) bad = `option ${k} of ${arg} is not shown`;
    } else if (what === "ex") {
      const e = p.byId("example"); e.value = arg; e.dispatch("change"); await p.settle();
      if (arg === "") { m.board = "NEW"; m.saved = m.phase === "idle" ? m.saved : null; if (m.phase !== "idle") { m.phase = "idle"; m.cur = null; } }
      else { m.board = m.loaded = exampleBoard(m.type, +arg); m.params = configured(m.type, +arg); m.set = true; m.phase = "idle"; m.cur = null; m.saved = null; }
      if (p.board !== m.board) bad = `the board is not the chosen example: ${p.board} instead of ${m.board}`;
    } else if (what === "set") {
      for (const [k, v] of Object.entries(META[m.type].parameters)) {
        const e = p.byId("param_" + k), d = defaults(m.type)[k], nv = m.set ? d : OTHER[v.type](d, v.default);
        if (!e) return `option ${k} of ${m.type} is not shown`;
        if (v.type === "checkbox") e.checked = nv; else e.value = nv;
        e.dispatch("input"); e.dispatch("change");
        m.params[k] = nv;
      }
      m.set = !m.set; await p.settle();
    } else if (what === "edit") {
      m.edits = 1 - m.edits; p.board = m.board = EDITS[m.edits];
    } else if (what.startsWith("solve")) {
      p.fail = what.split("!")[1] || null;
      p.solve.dispatch("click"); await p.settle(); p.fail = null;
      const news = p.requests.slice(before.n);
      if (m.phase === "showing") {
        m.at = (m.at + 1) % m.list.length; m.board = m.list[m.at];
        if (news.length) bad = "browsing the answers sends a request";
      } else if (!m.type) {
        if (news.length) bad = "a request is sent without a puzzle type";
      } else if (m.phase === "idle") {
        if (news.length !== 1) return `${news.length} requests are sent for one click`;
        const b = news[0].body || {};
        const want = { puzzle_name: m.type, puzzle: before.board, param: m.params };
        const canon = (o) => JSON.stringify([o.puzzle_name, o.puzzle, Object.entries(o.param || {}).map(([k, v]) => [k, typeof v === "boolean" ? v : String(v)]).sort()]);
        if (canon(b) !== canon(want)) return `the request is ${JSON.stringify(b)} instead of ${JSON.stringify(want)}`;
        if (!DEPLOYED && news[0].method !== "POST") return "the request is not a POST";
        if (!DEPLOYED && !/(^|\/)api\/solve\/$/.test(news[0].url)) return `the request goes to ${news[0].url}`;
        m.saved = before.board; m.board = before.board;
        if (what !== "solve") m.phase = "failed";
        else {
          if (p.live().length !== before.live + 1) return "solving does not start";
          const q = p.live()[p.live().length - 1];
          q.rid = ++this.rid; m.cur = q.rid; m.phase = "pending";
        }
      } else {  // a failed request: the button may try again or do nothing
        if (news.length) {
          m.saved = before.board; m.board = before.board;
          if (p.live().length !== before.live + 1) return "solving does not start";
          const q = p.live()[p.live().length - 1]; q.rid = ++this.rid; m.cur = q.rid; m.phase = "pending";
        }
      }
    } else if (what === "reset") {
      p.reset.dispatch("click"); await p.settle();
      const t = p.board;
      if (m.phase !== "idle") { if (t !== m.saved) bad = `reset gives the board ${t} instead of ${m.saved}`; }
      else if (![m.saved, m.loaded, "NEW", before.board].includes(t)) bad = `reset gives the board ${t}`;
      m.board = t; m.phase = "idle"; m.cur = null; m.list = []; m.at = -1; m.saved = null;
    } else if (what.startsWith("reply")) {
      const q = p.live()[+what.slice(5)];
      p.pending = p.pending.filter((x) => x !== q);
      const n = { ok1: 1, ok2: 2, ok10: 10, ok0: 0, store: 2 }[arg];
      const urls = n === undefined ? null : Array.from({ length: n }, (_, i) => `m=edit&p=A${q.rid}.${i}`);
      if (DEPLOYED) {
        if (arg === "store") p.fail = "store";
        if (urls) q.res({ Result: "SATISFIABLE", Time: { Total: 1 }, Call: [{ Witnesses: urls.map((u) => ({ Value: [u.slice(9)] })) }] });
        else if (arg === "unsat") q.res({ Result: "UNSATISFIABLE", Time: { Total: 1 }, Call: [{ Witnesses: [] }] });
        else if (arg === "error") q.res({ Result: "ERROR", Error: "bad" });
        else q.rej(new Error("worker failed"));
      } else if (arg === "net") q.rej(new Error("Failed to fetch"));
      else {
        const status = urls || arg === "badjson" ? 200 : +arg;
        const json = () => (arg === "badjson" ? Promise.reject(new SyntaxError("bad JSON")) : Promise.resolve(urls ? { url: urls } : { detail: "no" }));
        q.res({ status, ok: status === 200, json, text: () => json().then((o) => JSON.stringify(o)) });
      }
      await p.settle(); p.fail = null;
      if (q.rid !== m.cur) {
        if (p.board !== before.board || p.solve.textContent !== before.text || p.solve.disabled !== before.off || p.enabled("type") !== before.sel)
          bad = `an outdated reply changes the page: board ${p.board}, button "${p.solve.textContent}"${p.solve.disabled ? " (off)" : ""}`;
      } else if (urls && n > 0 && arg !== "store") { m.phase = "showing"; m.list = urls; m.at = 0; m.board = urls[0]; m.cur = null; }
      else { m.phase = "failed"; m.cur = null; if (p.board !== before.board) bad = `a failure changes the board to ${p.board}`; }
    }
    return bad || this.check();
  }
  check() {
    const p = this.page, m = this.m, t = p.solve.textContent, s = /^Solution \((\d+)\/(\d+)(\+?)\)$/.exec(t);
    if (p.board !== m.board) return `the board is ${p.board} instead of ${m.board}`;
    if (m.phase === "showing") {
      if (!s) return `an answer is shown but the button says "${t}"`;
      if (+s[1] !== m.at + 1 || +s[2] !== m.list.length || (s[3] && m.list.length < 10)) return `answer ${m.at + 1} of ${m.list.length} is shown but the button says "${t}"`;
      if (m.list.length > 1 && p.solve.disabled) return "the other answers cannot be shown";
    } else if (s && +s[1] > 0) return `the button says "${t}" but no answer is shown`;
    if (m.phase === "pending") { if (!p.solve.disabled) return `solving goes on but the button "${t}" is on`; }
    else if (/^Solving/.test(t)) return "the button says it is solving but it is not";
    if (m.phase === "failed" && p.solve.disabled && t === "Solve") return "the solve button stays off after a failure";
    if (m.phase === "idle" && this.steps > 0 && m.type && /^(reset|ex)/.test(this.last[1] || "")) {
      if (t !== "Solve" || p.solve.disabled) return `the solve button is "${t}"${p.solve.disabled ? " (off)" : ""} after ${this.last[1]}`;
    }
    if ((this.last[1] || "") === "reset" && !(p.enabled("type") && p.enabled("example"))) return "the choices stay off after reset";
    if (p.reset.disabled) return "the reset button is off";
    return null;
  }
  key() {
    const p = this.page, m = this.m;
    const rel = (b) => String(b).replace(/A(\d+)\./, (_, r) => `A-${this.rid - r}.`);
    return JSON.stringify([m.type, m.params, m.phase, rel(m.board), rel(m.saved), rel(m.loaded), m.at, m.list.length, m.edits, m.set, p.solve.textContent, p.solve.disabled, p.enabled("type"), p.enabled("example"),
      p.live().map((q) => q.rid - this.rid), this.last[1]]);
  }
}

async function play(seq) {
  const r = new Run();
  for (const ev of seq) { const bad = await r.step(ev); if (bad) return { r, bad }; }
  return { r, bad: null };
}
// two edits or two settings in a row are not explored
const dull = (a, b) => (a === "edit" && b === "edit") || (a === "set" && b === "set");

(async () => {
  const out = { sequences: 0, states: 0, steps: 0, violations: [], depth: 0 };
  if (only) {
    const { bad } = await play(only.split(" "));
    if (bad) out.violations.push({ seq: only.split(" "), bad });
    console.log(JSON.stringify(out)); return;
  }
  const seen = new Set();
  let n = 0;
  let front = [[]];
  for (let d = 0; d < deep && front.length && out.violations.length < 6; d++) {
    const next = [];
    for (const seq of front) {
      const { r } = await play(seq);
      out.steps += seq.length;
      for (const ev of r.events()) {
        if (dull(seq[seq.length - 1], ev)) continue;
        const s = [...seq, ev];
        if (d === 1 && n++ % shards !== shard) continue;
        const res = await play(s);
        out.sequences++; out.steps += s.length;
        if (res.bad) { if (out.violations.length < 6) out.violations.push({ seq: s, bad: res.bad }); continue; }
        const k = res.r.key();
        if (d + 1 >= full) { if (seen.has(k)) continue; }
        if (!seen.has(k)) { seen.add(k); out.states++; }
        next.push(s); out.depth = Math.max(out.depth, s.length);
      }
    }
    front = next;
  }
  out.left = front.length;
  console.log(JSON.stringify(out));
})();
