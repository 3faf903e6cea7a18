// C50: the worker, used through its client, answers init / start / pause / reset / step / evaluate in every
// order and under every interleaving of calls, deliveries, timers and module loading.
import { World } from "./world.mjs";
import { tier } from "./core.mjs";
export class ClientWorld extends World {
  constructor(fns, cfg) {
    super(fns, cfg);
    this.calls = cfg.calls; this.n = 0; this.req = 0; this.bad = null;
    // what the worker has been told so far, in the order it handled it
    this.h = { mode: "none", n: 0, running: false }; this.seen = null;
    this.owed = []; this.ready = false; this.run = 0; // owed to the client for the current search
    this.client = new this.ui.SrWorkerClient();
    const on = (f) => (...a) => { try { f(...a); } catch (e) { this.fail("exception", String(e)); } };
    this.client.setHandlers({
      onReady: on((s) => this.got("ready", JSON.stringify(s))), onSnapshot: on((s) => this.got("snapshot", s)), onFrontUpdate: on((f) => this.got("front", f)),
      onEvalResult: on((id, r) => this.got("eval", [id, r])), onDone: on(() => this.got("done")), onPaused: on(() => this.got("paused")), onResetDone: on(() => this.got("reset")),
      onError: on((e) => this.got("error", e)),
    });
    this.onWorkerMsg = (m) => this.told(m);
    this.onPost = (m) => { const s = this.sim(); if (m.type === "done" || (m.type === "error" && s?.failed && (this.timer || this.handling === "start"))) this.h.running = false; };
  }
  async boot() { await this.settle(); if (this.cfg.ready) { this.calls++; for (const e of ["ui:init", "w0:msg", "u:msg0"]) await this.do(e); } }
  fail(k, t) { this.bad ??= [k, t]; }
  sim() { return this.searches.filter((s) => s.n === this.h.n).at(-1); }
  exists() { return this.h.mode === "init" && this.sim() && !this.h.loading; }
  enabled() {
    const out = this.machineEvents();
    if (this.calls > 0) out.push(...this.cfg.alphabet.map((a) => "ui:" + a));
    return out;
  }
  // called before the worker handles a message
  told(m) {
    const h = this.h, mine = h.epoch === this.epoch;
    this.after = null; this.handling = m.type;
    if (m.type === "init" || m.type === "reset") {
      h.epoch = (h.epoch ?? 0) + 1; h.running = false;
      if (m.type === "init") { h.mode = "init"; h.n = m.options.seed; h.loading = !!this.cfg.slowInit; if (h.epoch === this.epoch) this.ready = true; }
      else { h.mode = "reset"; if (h.epoch === this.epoch) this.owed.push({ t: "reset" }); }
      return;
    }
    const owe = (x) => { if (mine) this.owed.push(x); };
    const s = this.sim();
    if (m.type === "pause") { if (h.running) { h.running = false; owe({ t: "paused" }); if (mine) this.run--; } return; }
    if (!this.exists()) { owe({ t: "error" }); return; }
    if (m.type === "start") { if (!h.running) { h.running = true; s.failed = false; if (mine) this.run++; } }
    else if (m.type === "step") {
      const want = Math.min(s.total, s.cycles + Math.max(0, m.cycles)); const from = s.cycles;
      s.failed = false;
      this.after = () => {
        if (s.failed) return owe({ t: "error" });
        if (s.cycles !== want) this.fail("step-cycles", `step(${m.cycles}) moved the search from ${from} to ${s.cycles} cycles`);
        owe({ t: "snapshot", c: want }); owe({ t: "front", c: want });
      };
    } else if (m.type === "evaluate") {
      if ([0, 1, 2].some((i) => s.id(i) === m.memberId)) owe({ t: "eval", id: m.requestId, code: s.n * 10000 + Number(m.memberId) * 10 + (m.which === "val" ? 1 : 0) });
      else owe({ t: "error" });
    }
  }
  got(t, v) {
    const take = (f) => { const i = this.owed.findIndex(f); if (i < 0) return false; this.owed.splice(i, 1); return true; };
    const s = this.searches.filter((x) => x.n === this.n).at(-1);
    if (this.asked !== "init" && !["reset", "error"].includes(t)) return this.fail("unasked:" + t, `${t} arrives although there is no search`);
    if (t === "ready") { if (!this.ready) return this.fail("unasked:ready", "ready twice, or for a search that was replaced"); this.ready = false;
      const want = JSON.stringify(this.ui.splitOf(this.n)); if (v !== want) this.fail("split", `split ${v}, expected ${want}`); return; }
    if (t === "error") { if (take((o) => o.t === "error")) return; if (this.ready && (this.cfg.failInit ?? []).includes(this.n)) { this.ready = false; return; } if (this.run && s?.failed) { this.run--; return; } return this.fail("unasked:error", String(v)); }
    if (t === "snapshot" || t === "front") {
      const [n, c] = t === "snapshot" ? [Math.floor(v.total_evals / 1000), v.cycles_completed] : v[0].equation.match(/\d+/g).slice(0, 2).map(Number);
      if (n !== this.n) return this.fail("stale:" + t, `${t} of search ${n} for search ${this.n}`);
      this.seen ??= {}; if ((this.seen[t] ?? 0) > c) return this.fail("backwards:" + t, `${t} at ${c} cycles after one at ${this.seen[t]}`);
      this.seen[t] = c; take((o) => o.t === t && o.c === c); return;
    }
    if (t === "done") {
      if (!this.run) return this.fail("unasked:done", "done without a run, or twice");
      this.run--;
      if (s.cycles < s.total) return this.fail("early-done", `done after ${s.cycles} of ${s.total} cycles`);
      if (this.seen?.snapshot !== s.total || this.seen?.front !== s.total) this.fail("final-state", "done without the final snapshot and solutions"); return;
    }
    if (t === "eval") { const [id, r] = v; if (!take((o) => o.t === "eval" && o.id === id && o.code === r.metrics.n)) this.fail("unasked:eval", `result ${id} ${r.metrics.n}`); return; }
    if (!take((o) => o.t === t)) this.fail("unasked:" + t, `${t} without a request in force`);
  }
  async do(e) {
    this.events.push(e);
    const before = this.searches.map((s) => s.cycles);
    this.handling = null; this.timer = /timer/.test(e); this.after = null;
    if (/:init$/.test(e) && e[0] === "w") { this.initsLeft = this.workers[0].inits.length - 1; }
    if (!(await this.machine(e))) {
      this.calls--;
      const c = e.slice(3);
      if (c === "init") { this.epoch = (this.epoch ?? 0) + 1; this.asked = "init"; this.n++; this.forget(); this.client.init({ csvText: "", options: { seed: this.n }, unary: [], binary: [], ternary: [] }); }
      else if (c === "reset") { this.epoch = (this.epoch ?? 0) + 1; this.asked = "reset"; this.forget(); this.client.reset(); }
      else if (c === "start") this.client.start();
      else if (c === "pause") this.client.pause();
      else if (c === "step") this.client.step(5);
      else if (c === "back") this.client.step(-3);
      else if (c === "eval") this.client.evaluate("r" + ++this.req, "2", "train");
      else if (c === "evalval") this.client.evaluate("r" + ++this.req, "0", "val");
      else if (c === "evalbad") this.client.evaluate("r" + ++this.req, "77", "val");
    }
    await this.settle();
    if (this.searches.some((s) => s.n === this.h.n)) this.h.loading = false;
    this.after?.();
    this.searches.forEach((s, i) => {
      if (s.cycles === (before[i] ?? 0)) return;
      if (s.n !== this.h.n || this.h.mode !== "init") this.fail("steps-old", `search ${s.n} is stepped although it was replaced`);
      else if (this.timer && !(this.h.running || s.cycles >= s.total)) this.fail("steps-stopped", "the search is stepped although it was paused");
    });
  }
  forget() { this.owed = []; this.ready = false; this.run = 0; this.seen = null; }
  check() {
    if (this.errors.length) return ["unhandled-error", this.errors[0]];
    if (this.bad) return this.bad;
    if (this.twoLoops) return ["two-loops", "two loops step the search at the same time"];
    if (this.machineEvents().length) return null;
    if (this.owed.length) return ["no-answer:" + this.owed[0].t, `nothing is under way any more and the client still waits for ${JSON.stringify(this.owed[0])}`];
    if (this.ready) return ["no-answer:ready", "init was never answered"];
    if (this.run) return ["no-answer:done", "the run ended without done"];
    return null;
  }
  trace() { return this.log; }
}
export function configs() {
  const all = ["init", "start", "pause", "reset", "step", "eval", "evalval", "evalbad", "back"], few = ["init", "start", "pause", "reset", "step", "eval"], run = ["init", "start", "pause", "step"];
  const c = tier(4, 5), d = tier(3, 4);
  return [{ calls: d, alphabet: all }, { calls: d, alphabet: all, ready: true }, { calls: c, alphabet: few, ready: true }, { calls: c, alphabet: few }, { calls: c, alphabet: run, dt: 0 }, { calls: c, alphabet: ["init", "start", "reset", "eval"], slowInit: true }, { calls: d, alphabet: few, slowInit: true },
    { calls: c, alphabet: run, failStep: 110 }, { calls: d, alphabet: few, failStep: 100 }, { calls: d, alphabet: few, failInit: [1] }, { calls: d, alphabet: few, failInit: [2], slowInit: true }, { calls: d, alphabet: run, total: 0 }, { calls: c, alphabet: run, total: 30, dt: 100 }];
}
export const make = (fns, cfg) => new ClientWorld(fns, cfg);
export const split = 7;
// Deliveries only read what the client was asked for: they commute with every call but init and reset.
const kind = (e) => (e.startsWith("w") ? "w" : e.startsWith("u:") ? "deliver" : e === "ui:init" || e === "ui:reset" ? "new" : "call");
const CLASH = new Set(["w w", "deliver deliver", "deliver new", "new deliver", "new new", "new call", "call new", "call call"]);
export const clash = (a, b) => CLASH.has(kind(a) + " " + kind(b));
