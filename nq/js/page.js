"use strict";
// Runs penpa-edit/app.js on a stand-in page: a small DOM, a board that is a string, and a network / solver that answers on demand.
const vm = require("vm");
const fs = require("fs");
const path = require("path");

const REPO = process.env.NQ_REPO || "/repo";
const APP = fs.readFileSync(path.join(REPO, "penpa-edit", "app.js"), "utf8");

const META = {
  aqre: { name: "Aqre", category: "shade", aliases: [], parameters: {}, examples: [{ data: "m=edit&p=AAA0" }, { data: "m=edit&p=AAA1" }, { url: "http://puzz.link/p?aaa/2", test: false }] },
  fillomino: {
    name: "Fillomino", category: "num", aliases: ["x"],
    parameters: { fast_mode: { name: "Fast Mode", type: "checkbox", default: true }, depth: { name: "Depth", type: "number", default: 5 } },
    examples: [{ data: "m=edit&p=BBB0" }, { data: "m=edit&p=BBB1", config: { fast_mode: false, depth: 7 } }],
  },
  statue: {
    name: "Statue", category: "var", aliases: [],
    parameters: { shapeset: { name: "Shapes", type: "select", default: { tetro: "Tetrominoes", pento: "Pentominoes" } }, letters: { name: "Letters", type: "text", default: "ABC" }, fast_mode: { name: "Fast", type: "checkbox", default: false } },
    examples: [{ data: "m=edit&p=CCC0", config: { shapeset: "pento" } }],
  },
};

class El {
  constructor(page, tag) {
    this.page = page; this.tagName = (tag || "div").toUpperCase(); this.children = []; this.style = { display: "none" };
    this.handlers = {}; this.disabled = false; this.checked = false; this._value = ""; this._text = ""; this._html = "";
    this.className = ""; this._id = ""; this.attrs = {}; this.dataset = {}; this.classList = { add() {}, remove() {}, toggle() {}, contains: () => false };
  }
  get id() { return this._id; }
  set id(v) { this._id = v; }
  get value() {
    if (this.tagName === "SELECT" && this._value === "" && this.children.length) return this.children[0].value;
    return this._value;
  }
  set value(v) { this._value = this.type === "checkbox" ? v : String(v); }
  get textContent() { return this._text; }
  set textContent(v) { this.children = []; this._text = v === null ? "" : String(v); }
  get innerHTML() { return this._html; }
  set innerHTML(v) { this.children = []; this._html = v; }
  get options() { return this.children; }
  get selectedIndex() { return this.children.findIndex((c) => c.value === this.value); }
  hasAttribute(k) { return k === "disabled" ? this.disabled : this.attrs[k] !== undefined; }
  toggleAttribute(k, on) { if (on === undefined ? !this.hasAttribute(k) : on) this.setAttribute(k, ""); else this.removeAttribute(k); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get firstChild() { return this.children[0] || null; }
  get lastChild() { return this.children[this.children.length - 1] || null; }
  get childNodes() { return this.children; }
  appendChild(c) { this.children.push(c); c.parentNode = this; return c; }
  append(...cs) { cs.forEach((c) => this.appendChild(c)); }
  replaceChildren(...cs) { this.children = []; this.append(...cs); }
  insertBefore(c) { return this.appendChild(c); }
  removeChild(c) { this.children = this.children.filter((x) => x !== c); return c; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  setAttribute(k, v) { this.attrs[k] = v; if (k === "disabled") this.disabled = true; else this[k] = v; }
  getAttribute(k) { return this.attrs[k] === undefined ? null : this.attrs[k]; }
  removeAttribute(k) { delete this.attrs[k]; if (k === "disabled") this.disabled = false; }
  addEventListener(t, f) { (this.handlers[t] = this.handlers[t] || []).push(f); }
  removeEventListener(t, f) { this.handlers[t] = (this.handlers[t] || []).filter((x) => x !== f); }
  dispatch(t) {
    for (const f of this.handlers[t] || []) this.page.guard(() => f.call(this, { type: t, target: this, currentTarget: this, preventDefault() {}, stopPropagation() {} }));
    if (typeof this["on" + t] === "function") this.page.guard(() => this["on" + t].call(this, { type: t, target: this }));
  }
  dispatchEvent(e) { this.dispatch(e.type); return true; }
  querySelector() { return new El(this.page); }
  querySelectorAll() { return []; }
  focus() {} blur() {} click() { this.dispatch("click"); }
  find(id) {
    if (this._id === id) return this;
    for (const c of this.children) { const f = c.find && c.find(id); if (f) return f; }
    return null;
  }
}

class Page {
  constructor(deployed, meta) {
    this.deployed = deployed; this.meta = meta || META; this.els = {}; this.board = "START"; this.pending = []; this.popups = []; this.errors = []; this.loads = 0;
    this.requests = []; this.choices = new Map(); this.runs = []; this.opened = [];
    const page = this;
    const byId = (id) => {
      for (const e of Object.values(page.els)) { const f = e.find(id); if (f) return f; }
      if (id.startsWith("param_")) return null;
      const e = new El(page, id === "type" || id === "example" ? "select" : "div");
      e.id = id; page.els[id] = e; return e;
    };
    this.byId = byId;
    const document = {
      getElementById: byId, createElement: (t) => new El(page, t), querySelector: (q) => (/^#[\w-]+$/.test(q) ? byId(q.slice(1)) : new El(page)), querySelectorAll: () => [],
      addEventListener() {}, head: new El(page), body: new El(page), createTextNode: (t) => ({ textContent: t, find() { return null; } }), title: "",
      dispatchEvent() { return true; },
    };
    const onload = [];
    const jq = (x) => {
      if (typeof x === "function") { onload.push(x); return jq; }
      return { on(t, f) { if (t === "load" || t === "ready") onload.push(f); return this; }, ready(f) { onload.push(f); return this; }, off() { return this; }, trigger() { return this; }, val() { return ""; } };
    };
    class Choices {
      constructor(el) { this.el = el; this.enabled = true; page.choices.set(el.id, this); }
      disable() { this.enabled = false; return this; }
      enable() { this.enabled = true; return this; }
      clearStore() { this.list = []; this.el.value = ""; return this; }
      clearChoices() { this.list = []; return this; }
      setChoices(list) { this.list = (this.list || []).concat(list); for (const c of list) if (c.selected) this.el.value = c.value; return this; }
      setChoiceByValue(v) { this.el.value = v; return this; }
      removeActiveItems() { this.el.value = ""; return this; }
      destroy() {}
    }
    const norm = (s) => String(s).slice(String(s).indexOf("#") + 1);
    const sandbox = {
      document, $: jq, jQuery: jq, Choices, console: { log() {}, info() {}, warn() {}, error() {}, debug() {} },
      Swal: { fire(o) { page.popups.push(typeof o === "object" ? String(o.text) : String(o)); return Promise.resolve({ isConfirmed: true }); }, close() {}, isVisible: () => false },
      pu: { maketext: () => "https://x/penpa-edit/#" + page.board, space: [0, 0, 0, 0] },
      import_url(s) { page.board = norm(s); page.loads++; }, load(s) { page.board = norm(s); page.loads++; },
      create_newboard() { page.board = "NEW"; }, advancecontrol_toggle() {}, focus() {}, setTimeout, clearTimeout, queueMicrotask, URL, AbortController, Headers: class {}, Event: class { constructor(t) { this.type = t; } },
      fetch(url, o) {
        let body = null;
        try { body = JSON.parse(o.body); } catch (e) { page.errors.push("request body is not JSON"); }
        const req = { url, method: o.method, body };
        page.requests.push(req);
        return new Promise((res, rej) => {
          const p = { req, res, rej, gone: false };
          if (o.signal) o.signal.addEventListener("abort", () => { p.gone = true; page.pending = page.pending.filter((x) => x !== p); const e = new Error("aborted"); e.name = "AbortError"; rej(e); });
          page.pending.push(p);
        });
      },
      Worker: class { constructor(u) { this.url = u; this.live = true; } terminate() { this.live = false; } postMessage() {} },
      Option: class extends El { constructor(t, v) { super(page, "option"); this.text = t; this.value = v === undefined ? t : v; } }, structuredClone, encodeURIComponent, decodeURIComponent, JSON, Promise, Math, Object, Array, String, Number, Error, parseInt, Map, Set,
    };
    sandbox.window = sandbox; sandbox.self = sandbox; sandbox.globalThis = sandbox;
    sandbox.open = (u) => page.opened.push(u); sandbox.addEventListener = (t, f) => { if (t === "load") onload.push(f); };
    document.addEventListener = (t, f) => { if (t === "DOMContentLoaded") onload.push(f); };
    sandbox.location = { href: "https://x/penpa-edit/", hash: "" };
    if (deployed) {
      const mk = (o) => ({ get: (k) => o[k], toJs: () => o, ...o });
      sandbox.prepare_puzzle = (n, c, p) => {
        const req = { url: "browser", method: "POST", body: { puzzle_name: n, puzzle: c, param: JSON.parse(JSON.stringify(p)) } };
        page.requests.push(req);
        if (page.fail === "prepare") return mk({ success: false, result: "prepare failed" });
        return mk({ success: true, result: { req } });
      };
      sandbox.generate_program = (p) => (page.fail === "program" ? mk({ success: false, result: "program failed" }) : mk({ success: true, result: p }));
      sandbox.store_solution = (p, m) => (page.fail === "store" ? mk({ success: false, result: "store failed" }) : mk({ success: true, result: "m=edit&p=" + m.replace(/ /g, "+") }));
      sandbox.clingo = {
        worker: new sandbox.Worker("w"), ready: true,
        init() { this.worker.live = true; return Promise.resolve(); },
        run(program, options) {
          page.runs.push({ program, options });
          const worker = this.worker;
          return new Promise((res, rej) => page.pending.push({ req: program.req || { body: {} }, res, rej, worker }));
        },
      };
    }
    this.ctx = vm.createContext(sandbox);
    this.boot(`const ENABLE_DEPLOYMENT = ${deployed}; const solver_metadata = ${JSON.stringify(this.meta)};`);
    this.boot(APP);
    for (const f of onload) this.guard(() => f.call(sandbox));
  }
  boot(code) { vm.runInContext(code, this.ctx); }
  guard(f) {
    try {
      const r = f();
      if (r && typeof r.then === "function") r.then(() => {}, (e) => this.errors.push(String(e && e.message)));
    } catch (e) { this.errors.push(String(e && e.message)); }
  }
  async settle() { for (let i = 0; i < 24; i++) await Promise.resolve(); await new Promise((r) => setImmediate(r)); for (let i = 0; i < 8; i++) await Promise.resolve(); }
  get solve() { return this.byId("solve"); }
  get reset() { return this.byId("solver_reset"); }
  enabled(id) { const c = this.choices.get(id); return (!c || c.enabled) && !this.byId(id).disabled; }
  live() { return this.pending.filter((p) => !p.worker || p.worker.live); }
}

module.exports = { Page, META, REPO };
process.on("unhandledRejection", (e) => { module.exports.lastRejection = String(e && e.message); });
