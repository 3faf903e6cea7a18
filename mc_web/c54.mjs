// C54: the search is created with exactly the settings the page shows: every sequence of up to `depth`
// edits over every field, switch, picker, mutation weight, operator and preset.
import { World } from "./world.mjs";
import { tier } from "./core.mjs";
const WEIGHTS = ["mutate_constant", "mutate_operator", "mutate_feature", "swap_operands", "rotate_tree", "add_node", "insert_node", "delete_node", "simplify", "randomize", "do_nothing", "optimize", "form_connection", "break_connection"];
export const FULL = { has_headers: true, x_columns: null, y_column: null, weights_column: null, validation_fraction: 0, loss_kind: "mse", huber_delta: 1, seed: 0, niterations: 100, populations: 31, population_size: 27, ncycles_per_iteration: 380,
  maxsize: 30, maxdepth: 31, warmup_maxsize_by: 0.5, parsimony: 0.125, adaptive_parsimony_scaling: 1040, crossover_probability: 0.0259, perturbation_factor: 0.129, probability_negate_constant: 0.00743, tournament_selection_n: 15,
  tournament_selection_p: 0.982, alpha: 3.17, optimizer_nrestarts: 2, optimizer_probability: 0.14, optimizer_iterations: 8, optimizer_f_calls_limit: 10000, fraction_replaced: 0.00036, fraction_replaced_hof: 0.0614,
  fraction_replaced_guesses: 0.001, topn: 12, use_frequency: true, use_frequency_in_tournament: true, skip_mutation_failures: true, annealing: true, should_optimize_constants: true, migration: true, hof_migration: true,
  use_baseline: true, progress: false, should_simplify: false, mutation_weights: Object.fromEntries(WEIGHTS.map((w, i) => [w, (i + 1) / 16])) };
const op = (arity, name, display) => ({ arity, name, display: display ?? name, infix: null, commutative: false, associative: false, complexity: 1 });
export const REG = [op(1, "cos"), op(1, "cosh"), op(1, "sin"), op(1, "acos"), op(1, "exp"), op(1, "log"), op(1, "log2"), op(1, "neg", "-"), op(2, "add", "+"), op(2, "sub", "-"), op(2, "mul", "*"), op(2, "div", "/"), op(2, "pow", "^"), op(3, "fma")];
const FIELDS = Object.keys(FULL).filter((k) => !["has_headers", "x_columns", "y_column", "weights_column", "validation_fraction", "huber_delta", "niterations", "progress", "mutation_weights", "loss_kind"].includes(k));
const SWITCHES = FIELDS.filter((k) => typeof FULL[k] === "boolean"), NUMBERS = FIELDS.filter((k) => typeof FULL[k] === "number");
const ACTIONS = [...NUMBERS.map((k) => "num:" + k), ...SWITCHES.map((k) => "switch:" + k), ...WEIGHTS.map((k) => "weight:" + k), "loss:mae", "loss:huber", "delta", "iterations", "validation",
  ...REG.filter((o) => o.arity < 3).map((o) => `op:${o.arity}:${o.name}`), "preset:basic", "preset:trig", "preset:explog", "init", "reset"];
const PRESETS = { basic: ["cos"], trig: ["cos", "sin"], explog: ["cos", "exp", "log"] };
class SetWorld extends World {
  constructor(fns, cfg) { super(fns, { ...cfg, defaults: () => structuredClone(FULL), registry: REG }); }
  async boot() { if (this.cfg.early) { this.store.getState().setTab("configure"); this.root.flush(); } await this.settle(); await this.settle(); this.o = structuredClone(FULL); this.ops = [new Set(["cos"]), new Set(["add", "sub", "mul", "div"]), new Set()]; this.v = 3; this.started = false; }
  async tab(t) { this.store.getState().setTab(t); await this.settle(); }
  label(text) { return this.root.find((n) => n.type === "label" && this.ui.text(n).replace(/^\s+|\s+$/g, "") === text)[0]; }
  input(text) {
    const l = this.root.find((n) => n.type === "label" && n.children.some((c) => (typeof c === "string" ? c : this.ui.text(c)).trim() === text))[0];
    return l?.children.find((c) => c.type === "input" || c.type === "select");
  }
  checks(title) { const g = this.root.find((n) => n.type === "div" && n.props.className === "opGroup" && this.ui.text(n).startsWith(title))[0]; const out = []; const go = (n) => { if (typeof n === "string") return; if (n.type === "label") out.push([this.ui.text(n), n.children.find((c) => c.type === "input")]); else n.children.forEach(go); }; go(g); return out; }
  must(n, what) { if (!n) throw new Error("no control for " + what); if (n.props.disabled) throw new Error(`control for ${what} is disabled`); return n; }
  async set(k, x) { this.must(this.input(k), k).props.onChange({ target: { value: String(x), checked: x } }); await this.settle(); }
  async do(a) {
    const [t, k, name] = a.split(":"); const x = (this.v += 1);
    if (t === "val") { await this.tab("configure"); await this.set(k, +name); this.o[k] = +name; }
    else if (t === "num") { await this.tab("configure"); await this.set(k, x); this.o[k] = x; }
    else if (t === "switch") { await this.tab("configure"); await this.set(k, !this.o[k]); this.o[k] = !this.o[k]; }
    else if (t === "weight") { await this.tab("configure"); await this.set(k, x / 8); this.o.mutation_weights[k] = x / 8; }
    else if (t === "loss") { await this.tab("configure"); await this.set("loss_kind", k); this.o.loss_kind = k; }
    else if (t === "delta") { await this.tab("configure"); if (this.o.loss_kind === "huber") { await this.set("huber_delta", x / 4); this.o.huber_delta = x / 4; } }
    else if (t === "iterations") { await this.tab("run"); const n = this.byId("opt-niterations"); if (!n.props.disabled) { n.props.onChange({ target: { value: String(x) } }); await this.settle(); this.o.niterations = x; } else if (!this.started) throw new Error("the number of iterations cannot be edited"); }
    else if (t === "validation") { await this.tab("data"); this.click(this.byId("parse-preview")); await this.settle(); await this.set("validation fraction", 0.25); Object.assign(this.o, { validation_fraction: 0.25, y_column: this.o.y_column ?? 2, x_columns: this.o.x_columns ?? [0, 1] }); }
    else if (t === "op") {
      await this.tab("configure"); const info = REG.find((o) => o.arity === +k && o.name === name); const text = info.display === name ? name : `${name} (${info.display})`;
      const c = this.checks(k === "1" ? "Unary" : "Binary").find(([l]) => l === text); this.must(c?.[1], a).props.onChange({ target: {} }); await this.settle();
      const s = this.ops[k - 1]; s.has(name) ? s.delete(name) : s.add(name);
    } else if (t === "preset") { this.store.getState().applyPreset(k); await this.settle(); this.ops = [new Set(PRESETS[k]), new Set(["add", "sub", "mul", "div"]), new Set()]; }
    else if (t === "init") await this.create();
    else if (t === "reset") { await this.tab("run"); this.click(this.button("Reset")); await this.settle(); await this.drain(); this.started = false; }
  }
  async drain() { for (let i = 0; i < 100 && this.machineEvents().length; i++) { await this.machine(this.machineEvents()[0]); await this.settle(); } }
  // initialise and compare what the search was created with
  async create() {
    await this.tab("run"); const b = this.byId("search-init"); const n = this.searches.length;
    const any = this.ops.some((s) => s.size);
    if (!this.canClick(b)) { if (any) this.fail("cannot-init", "Initialize is disabled"); return; }
    if (!any) return this.fail("no-operators", "Initialize is possible without operators");
    this.click(b); await this.settle(); await this.drain(); this.started = true;
    const s = this.searches.at(-1);
    if (this.searches.length !== n + 1) return this.fail("not-created", "no search was created");
    const show = (o) => JSON.stringify(o, Object.keys({ ...FULL, ...FULL.mutation_weights }).sort());
    if (show(s.opts) !== show(this.o) || Object.keys(s.opts).length !== Object.keys(this.o).length) {
      const d = Object.keys(this.o).filter((k) => JSON.stringify(s.opts[k]) !== JSON.stringify(this.o[k]));
      this.fail("options:" + d.join(), `the search gets ${d.map((k) => `${k}=${JSON.stringify(s.opts[k])} (chosen ${JSON.stringify(this.o[k])})`).join(", ")}`);
    }
    s.ops.forEach((l, i) => { if (new Set(l).size !== l.length) this.fail("operators-twice", `operators ${l}`); if (l.slice().sort().join() !== [...this.ops[i]].sort().join()) this.fail("operators", `the search gets ${l}, chosen ${[...this.ops[i]]}`); });
    if (s.csv !== this.store.getState().csvText) this.fail("csv", "the search gets another text");
  }
  fail(k, t) { this.bad ??= [k, t]; }
  async shown() {
    await this.tab("configure");
    for (const k of NUMBERS) if (+this.input(k).props.value !== this.o[k]) this.fail("shown:" + k, `${k} shows ${this.input(k).props.value}, chosen ${this.o[k]}`);
    for (const k of SWITCHES) if (this.input(k).props.checked !== this.o[k]) this.fail("shown:" + k, `${k} shows ${this.input(k).props.checked}`);
    for (const k of WEIGHTS) if (+this.input(k).props.value !== this.o.mutation_weights[k]) this.fail("shown:" + k, `weight ${k} shows ${this.input(k).props.value}`);
    if (this.input("loss_kind").props.value !== this.o.loss_kind) this.fail("shown:loss_kind", "loss_kind");
    for (const [t, i] of [["Unary", 0], ["Binary", 1]]) for (const [l, c] of this.checks(t)) if (c.props.checked !== this.ops[i].has(l.split(" ")[0])) this.fail("shown:op", `box ${l} shows ${c.props.checked}`);
    await this.tab("run"); if (+this.byId("opt-niterations").props.value !== this.o.niterations) this.fail("shown:iterations", "iterations");
  }
}
export function configs() { return ACTIONS.map((a) => ({ first: a })); }
// numbers of every kind that a field takes, at least its least
const VALUES = [0, 1e-9, 0.001, 1, 1.5, 255.75, 65536, 4294967297, 1e12];
export async function run(fns, cfg, rep) {
  if (cfg.first.startsWith("num:")) {
    const w = (globalThis.__cur = new SetWorld(fns, {})); await w.boot(); await w.tab("configure");
    const k = cfg.first.slice(4), least = w.input(k).props.min ?? 0;
    for (const x of VALUES.filter((x) => x >= +least)) {
      const v = (globalThis.__cur = new SetWorld(fns, {})); await v.boot();
      try { await v.do(`val:${k}:${x}`); await v.shown(); await v.create(); } catch (e) { v.fail("exception:" + e.message.split("\n")[0], String(e.stack).split("\n").slice(0, 3).join(" ")); }
      rep.transitions++; rep.states++; rep.valid++;
      if (v.bad) rep.violation(v.bad[0], `${v.bad[1]}\n  history: ${k} set to ${x}`);
    }
  }
  // thorough: third edit over one field of each kind
  const third = tier([null, "init", "weight:add_node", "switch:migration", "loss:huber", "delta", "op:2:add"], [null, "num:maxsize", "num:fraction_replaced", "switch:migration", "weight:add_node", "loss:huber", "delta", "iterations", "op:1:sin", "op:2:add", "preset:trig", "init", "reset", "validation"]);
  const seen = new Set();
  for (const b of [null, ...ACTIONS]) for (const c of b == null ? [null] : third) {
    if (rep.viol.size >= 20) return;
    if (rep.end && Date.now() > rep.end) { rep.exhaustive = false; return; }
    const seq = [cfg.first, b, c].filter(Boolean);
    const w = (globalThis.__cur = new SetWorld(fns, { early: b != null && ACTIONS.indexOf(b) % 2 === 0 })); await w.boot();
    try {
      for (const a of seq) { await w.do(a); rep.transitions++; const k = JSON.stringify([w.o, w.ops.map((s) => [...s].sort())]); if (!seen.has(k)) { seen.add(k); rep.states++; } }
      await w.shown(); await w.create();
      if (w.errors.length) w.fail("unhandled-error", w.errors[0]);
    } catch (e) { w.fail("exception:" + e.message.split("\n")[0], String(e.stack).split("\n").slice(0, 3).join(" ")); }
    rep.valid++;
    if (w.bad) rep.violation(w.bad[0], `${w.bad[1]}\n  history: ${seq.join(" ")}`);
    if (rep.samples.length < 1 && c === third.at(-1) && b === "op:1:sin") rep.samples.push(seq.join(" ") + " init");
  }
}
