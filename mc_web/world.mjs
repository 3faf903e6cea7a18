// One execution of the web UI: the real components, store, worker client and worker, connected by two
// message queues; clock, timers, module loading and the compiled search are the harness's.
const PARAMS = ["module", "exports", "require", "self", "globalThis", "window", "performance", "setTimeout", "clearTimeout", "Worker", "crypto", "navigator", "console", "SharedArrayBuffer"];
export function compile(src) { return new Function(...PARAMS, src); }
const quiet = { log() {}, warn() {}, error() {}, info() {} };
function load(fn, env) {
  const module = { exports: {} };
  const g = Object.assign(env.self, { __wasm: env.wasm });
  fn(module, module.exports, () => { throw new Error("require"); }, env.self, g, undefined, env.performance, env.setTimeout, () => {}, env.Worker, env.crypto, env.navigator ?? {}, quiet, undefined);
  return module.exports;
}
export const tick = () => new Promise((r) => setImmediate(r));
const clone = (x) => structuredClone(x);

export const CSV = "x,z,y\n0,1,5\n1,2,6\n2,4,7\n3,8,8\n";
const ROWS = [[0, 1, 5], [1, 2, 6], [2, 4, 7], [3, 8, 8]];
export { ROWS };
export function defaults() {
  return { has_headers: true, x_columns: null, y_column: null, weights_column: null, validation_fraction: 0, loss_kind: "mse", huber_delta: 1, seed: 0, niterations: 100,
    maxsize: 30, mutation_weights: { add_node: 1 }, populations: 2 };
}
// a gap, and neighbours
export const COMPLEXITY = [1, 3, 4];
export const splitOf = (n) => (n % 2 ? { train: [0, 1, 3], val: [2] } : { train: [3, 1, 0, 2], val: [] });
// The simulated search: everything it says names the search (its seed) and its progress.
export class SimSearch {
  constructor(world, opts, csv, ops) { this.w = world; this.n = opts.seed; this.opts = opts; this.csv = csv; this.ops = ops; this.cycles = 0; this.total = world.cfg.total ?? 20; this.steps = []; this.k = 0; this.freed = false; }
  use() { if (this.freed) throw new Error("use after free"); }
  free() { this.freed = true; }
  set_pareto_k(k) { this.k = k; }
  get_split_indices() { this.use(); return splitOf(this.n); }
  is_finished() { this.use(); return this.cycles >= this.total; }
  step(c) {
    this.use();
    if (c > 0) {
      if (this.w.cfg.failStep === this.n * 100 + this.cycles) { this.failed = true; throw new Error("step failed"); }
      if (this.w.chain > 0 && this.w.chain < (this.w.lastChain ?? 0)) this.w.twoLoops = true;
      if (this.w.chain > 0) this.w.lastChain = this.w.chain;
      this.w.log.push(`step s${this.n} ${c}`);
      this.steps.push(this.w.events.length);
      this.cycles = Math.min(this.total, this.cycles + c);
    }
    return { total_cycles: this.total, cycles_completed: this.cycles, total_evals: this.n * 1000 + this.cycles, best: this.eq(2), pareto_points: this.front().map(({ equation, ...r }) => r) };
  }
  eq(i) { return { id: this.id(i), complexity: COMPLEXITY[i], loss: 8 - i - this.cycles / 100, cost: 8 - i, equation: `s${this.n}@${this.cycles}#${i}` }; }
  // members 0 and 2 keep their identity, member 1 is replaced at each step
  id(i) { return String(i === 1 ? 100 + this.cycles : i); }
  front() { return [0, 1, 2].filter((i) => !(this.cycles >= 20 && (this.w.cfg.drop ?? []).includes(i))).map((i) => this.eq(i)); }
  best_equations() { this.use(); return this.front(); }
  evaluate_member(id, which) {
    this.use();
    if (![0, 1, 2].some((i) => this.id(i) === id)) throw new Error("member not found");
    const s = splitOf(this.n)[which];
    const code = this.n * 10000 + Number(id) * 10 + (which === "val" ? 1 : 0);
    return { metrics: { n: code, mse: 1, mae: 1, rmse: 1, r2: 1, corr: 1, min_abs_err: 0, max_abs_err: 1 }, yhat: s.map((r) => code + r / 8) };
  }
}

export class World {
  constructor(fns, cfg) {
    this.cfg = cfg; this.events = []; this.log = []; this.workers = []; this.searches = []; this.errors = []; this.uuid = 0;
    const w = this;
    const clock = () => { let t = 1000; return { now: () => (t += cfg.dt ?? 1000) }; };
    class MockWorker {
      constructor() {
        this.onmessage = null; this.inbox = []; this.outbox = []; this.timers = []; this.inits = []; this.dead = false; w.workers.push(this);
        const me = this;
        const self = { onmessage: null, crossOriginIsolated: false, navigator: {}, postMessage: (m) => { if (!me.dead) { w.log.push("w> " + m.type); w.onPost?.(m); me.outbox.push(clone(m)); } }, addEventListener: (t, f) => { if (t === "message") self.onmessage = f; } };
        this.self = self;
        const wasm = {
          init: () => cfg.slowInit ? new Promise((r) => me.inits.push(() => r({}))) : Promise.resolve({}),
          init_thread_pool: async () => {},
          search: (csv, opts, u, b, t) => {
            w.log.push(`new s${opts.seed}`);
            if ((cfg.failInit ?? []).includes(opts.seed)) throw new Error("bad data");
            const s = new (cfg.Sim ?? SimSearch)(w, opts, csv, [u, b, t]); s.worker = me; w.searches.push(s); return s;
          },
        };
        load(fns.worker, { wasm, self, performance: clock(), setTimeout: (f) => { { const c = w.chain; me.timers.push(() => { w.chain = c; f(); }); } return me.timers.length; }, crypto: {} });
      }
      postMessage(m) { if (!this.dead) { w.log.push("u> " + m.type); this.inbox.push(clone(m)); } }
      terminate() { this.dead = true; this.inbox = []; this.outbox = []; this.timers = []; this.inits = []; }
      addEventListener(t, f) { if (t === "message") this.onmessage = f; }
    }
    const wasm = { init: async () => { if (cfg.failLoad) throw new Error("no module"); return {}; }, registry: async () => cfg.registry ?? [{ arity: 1, name: "cos", display: "cos" }, { arity: 2, name: "add", display: "+" }], defaults: async () => (cfg.defaults ?? defaults)(), coreDefaults: async () => ({}) };
    this.ui = load(fns.ui, { wasm, self: {}, navigator: cfg.navigator, performance: { now: () => w.now() }, setTimeout: (f) => { throw new Error("timer in the UI"); }, Worker: MockWorker, crypto: { randomUUID: () => "u" + ++w.uuid } });
    this.ui.splitOf = splitOf;
    this.store = this.ui.store.useSessionStore;
    this.root = this.ui.mount(this.ui.createElement(this.ui.App, {}));
  }
  // the page's clock: a quarter of a second goes by with each event
  now() { return this.cfg.now ? this.cfg.now() : 1000 + 250 * this.events.length; }
  async settle() { for (let i = 0; i < 2; i++) { await tick(); } this.root.flush(); }
  live() { return this.workers.filter((x) => !x.dead); }
  byId(id) { return this.root.find((n) => n.props["data-testid"] === id)[0]; }
  button(label) { return this.root.find((n) => n.type === "button" && this.ui.text(n).trim() === label)[0]; }
  status() { const n = this.byId("search-status"); return n ? this.ui.text(n).trim() : null; }
  canClick(n) { return n && !n.props.disabled; }
  click(n) { n.props.onClick({ preventDefault() {}, stopPropagation() {}, target: {} }); }
  // worker and queue events, common to all drivers
  machineEvents() {
    const out = [];
    this.workers.forEach((x, i) => {
      if (x.dead) return;
      if (x.inbox.length) out.push(`w${i}:msg`);
      if (x.timers.length) out.push(`w${i}:timer`);
      if (x.inits.length) out.push(`w${i}:init`);
      if (x.outbox.length) out.push(`u:msg${i}`);
    });
    return out;
  }
  async machine(e) {
    let m;
    if ((m = /^w(\d+):(msg|timer|init)$/.exec(e))) {
      const x = this.workers[+m[1]];
      // a chain is what follows from one `start`: the loop it opened
      this.chain = m[2] === "msg" && x.inbox[0].type === "start" ? (this.chains = (this.chains ?? 0) + 1) : 0;
      try {
        if (m[2] === "msg") { const msg = x.inbox.shift(); this.onWorkerMsg?.(msg); const r = x.self.onmessage({ data: msg }); if (r && r.catch) r.catch((err) => this.errors.push("unhandled: " + err)); }
        else if (m[2] === "timer") x.timers.shift()();
        else x.inits.shift()();
      } catch (err) { this.errors.push("worker: " + err); }
      return true;
    }
    if ((m = /^u:msg(\d+)$/.exec(e))) { const x = this.workers[+m[1]]; x.onmessage({ data: x.outbox.shift() }); return true; }
    return false;
  }
}
