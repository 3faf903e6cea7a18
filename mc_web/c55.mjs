// C55: the results on the Run pane read as they are: every row, point, number and button of every small
// list of solutions, after every short sequence of clicks.
import { World, SimSearch } from "./world.mjs";
import { tier } from "./core.mjs";
const LOSSES = [[], [2], [0.5, 0], [1234567.8, 0.012345], [Infinity, 3, 1e-300], [5, 5, 0.25]];
const METRICS = [{ n: 3, mse: 1.5, mae: 2.25, rmse: 0.125, r2: -3.5, corr: 0.875, min_abs_err: 0.0625, max_abs_err: 17 }, { n: 100, mse: 0, mae: 1e-9, rmse: Infinity, r2: 1, corr: NaN, min_abs_err: 12345.678, max_abs_err: 4e30 }];
const LABELS = { n: "n", mse: "mse", mae: "mae", rmse: "rmse", r2: "r²", corr: "corr", min_abs_err: "min |err|", max_abs_err: "max |err|" };
const ALWAYS = ["n", "rmse", "mae", "r2", "max_abs_err"];
const near = (text, x) => { const t = text.trim(); return Number.isFinite(x) ? t !== "" && Math.abs(Number(t) - x) <= 1e-3 * Math.abs(x) : t === String(x); };
// metrics differ with the solution and with the part of the data
const metricsOf = (cfg, i, which) => { const m = METRICS[(i + cfg.m) % METRICS.length]; const f = (which === "val" ? 2 : 1) * (1 + i); return Object.fromEntries(Object.entries(m).map(([k, v]) => [k, k === "n" ? v + i * 7 + (which === "val" ? 1000 : 0) : v * f])); };
class ListSearch extends SimSearch {
  front() { const l = LOSSES[this.w.cfg.list]; return l.map((loss, i) => ({ id: String(40 + 3 * i), complexity: 1 + 3 * i * (i + 1) / 2, loss, cost: loss + 1, equation: `f${i}(x) + ${i}` })); }
  bestOne() { return this.front()[this.w.cfg.best] ?? { id: "7", complexity: 9, loss: 0.75, cost: 2, equation: "g(x)" }; }
  step(c) { const s = super.step(c); return { ...s, total_evals: this.w.cfg.evals ? this.w.cfg.evals[Math.min(this.steps.length, this.w.cfg.evals.length - 1)] : s.total_evals, best: this.bestOne(), pareto_points: this.front().map(({ equation, ...r }) => r) }; }
  evaluate_member(id, which) {
    const i = [...this.front(), this.bestOne()].findIndex((m) => m.id === id); if (i < 0) throw new Error("member not found");
    return { metrics: metricsOf(this.w.cfg, i, which), yhat: [0, 0, 0, 0].slice(which === "val" ? 3 : 0) };
  }
}
class ShowWorld extends World {
  constructor(fns, cfg) {
    const c = { ...cfg, Sim: ListSearch, copied: [], t: 0 };
    c.navigator = { clipboard: { writeText: async (x) => { c.copied.push(x); } } };
    c.now = () => c.t;
    super(fns, c);
    this.sel = null; this.snaps = [];
  }
  async boot() {
    await this.settle(); await this.settle(); await this.click_("Run");
    if (this.cfg.failLoad) return;
    this.state(); // idle
    if (this.cfg.noOps) { for (const o of ["cos"]) this.store.getState().toggleOp(1, o); for (const o of ["add", "sub", "mul", "div"]) this.store.getState().toggleOp(2, o); await this.settle(); this.state(); return; }
    this.store.getState().setOptionsPatch({ seed: this.cfg.val ? 1 : 2 }); await this.settle();
    this.click(this.byId("search-init")); await this.settle(); this.state();
    await this.drain();
    if (this.cfg.stop === 0) return;
    this.click(this.byId("search-start")); await this.settle(); this.state();
    await this.drain(this.cfg.stop);
  }
  async click_(label) { const b = this.button(label); if (!b) throw new Error("no button " + label); this.click(b); await this.settle(); }
  async drain(stop = Infinity) {
    for (let i = 0; i < 200; i++) {
      const ev = this.machineEvents(); if (!ev.length) return;
      const u = ev.find((e) => e.startsWith("u:")) ?? ev[0];
      if (u.endsWith(":timer") && this.snaps.length >= stop) { await this.click_("Pause"); stop = Infinity; continue; }
      if (u.startsWith("u:")) { this.cfg.t += this.cfg.gaps ? this.cfg.gaps[this.snaps.length % this.cfg.gaps.length] : 500; const m = this.workers[0].outbox[0]; if (m.type === "snapshot") this.snaps.push([this.cfg.t, m.snap]); }
      await this.machine(u); await this.settle(); this.state();
    }
  }
  rows() { return this.root.find((n) => String(n.props["data-testid"] ?? "").startsWith("solution-row-")); }
  plot() { return this.root.find((n) => n.type === "plot" && n.props.layout.xaxis.title === "complexity")[0]; }
  cards() { return this.root.find((n) => n.type === "table" && n.props["data-testid"] !== "solutions-table"); }
  // the buttons that show and hide the less usual metrics of each part
  more() { const bs = this.root.find((n) => n.type === "button" && /^(More|Hide)$/.test(this.ui.text(n).trim())); return this.tables().Train ? { train: bs[0], val: bs[1] } : { val: bs[0] }; }
  // the heading each table of metrics stands under
  tables() {
    const out = {}; let head = null;
    for (const n of this.root.find((n) => n.props.className === "subTitle" || (n.type === "table" && n.props["data-testid"] !== "solutions-table"))) {
      if (n.type !== "table") head = this.ui.text(n).trim(); else if (head) { out[head] = Object.fromEntries(this.rowsOf(n)); head = null; }
    }
    return out;
  }
  rowsOf(t) { const out = []; const go = (n) => { if (typeof n === "string") return; if (n.type === "tr") out.push([this.ui.text(n.children[0]).trim(), this.ui.text(n.children[1])]); else n.children.forEach(go); }; go(t); return out; }
  actions() {
    const n = this.front().length; const out = [];
    for (let i = 0; i < n; i++) out.push("row" + i, "point" + i);
    const s = this.search();
    if (n) out.push("more:train"); if (n && this.cfg.val) out.push("more:val");
    if (s) out.push("copy"); out.push("tabs");
    return out;
  }
  search() { return this.searches.at(-1); }
  front() { return this.shownFront ?? []; }
  fail(k, t) { this.bad ??= [k, t]; }
  async do(a) {
    const m = /^(row|point)(\d)$/.exec(a);
    if (m) {
      const want = this.front()[+m[2]];
      if (m[1] === "row") { const r = this.rows().find((r) => this.ui.text(r).includes(want.equation)); this.click(r); }
      else this.plot().props.onClick({ points: [{ pointIndex: this.plot().props.data[0].text?.indexOf(want.id) ?? +m[2] }] });
      this.sel = want; await this.settle(); await this.drain();
    } else if (a.startsWith("more")) {
      const which = a.slice(5), before = this.more(), b = before[which]; this.toggles = (this.toggles ?? 0) + !!b;
      if (b) { this.click(b); await this.settle(); const after = this.more(); for (const k of ["train", "val"]) if (before[k] && (this.ui.text(before[k]) !== this.ui.text(after[k] ?? "")) !== (k === which)) this.fail("more", `clicking ${this.ui.text(b)} of ${which} makes the button of ${k} ${this.ui.text(after[k] ?? "")}`); }
    } else if (a === "copy") {
      const b = this.button("Copy"); const n = this.cfg.copied.length; if (b) { this.click(b); await this.settle(); const e = (this.sel ?? this.search().bestOne()).equation; if (this.cfg.copied.length !== n + 1 || this.cfg.copied.at(-1) !== e) this.fail("copy", `copied ${JSON.stringify(this.cfg.copied.slice(n))} instead of ${e}`); }
    } else if (a === "tabs") {
      for (const [t, has] of [["Data", () => this.byId("parse-preview")], ["Configure", () => this.root.find((n) => n.props.className === "opGroup")[0]], ["Run", () => this.byId("search-status")]]) {
        await this.click_(t); if (!has()) this.fail("tab:" + t, `tab ${t} does not show its pane`);
        const on = this.root.find((n) => n.type === "button" && /^(Data|Configure|Run)$/.test(this.ui.text(n).trim())).map((n) => [this.ui.text(n).trim(), n.props.className]);
        const mine = on.find(([l]) => l === t)[1]; if (on.some(([l, c]) => l !== t && c === mine)) this.fail("tab-mark", `the marked tab is not ${t}: ${JSON.stringify(on)}`);
      }
    }
    this.state();
  }
  state() {
    const rt = this.store.getState().runtime, st = this.store.getState();
    const front = rt.front; this.shownFront = front;
    const lit = (xs, what, is) => { // exactly the elements for which `is` holds are marked
      const marks = xs.map((x) => JSON.stringify(x)); const on = marks.filter((_, i) => is(i)), off = marks.filter((_, i) => !is(i));
      if (new Set(off).size > 1 || new Set(on).size > 1 || on.some((m) => off.includes(m))) this.fail("mark:" + what, `marks ${marks} where ${xs.map((_, i) => is(i))} are to be marked`);
    };
    // the list of solutions, the best first
    const rows = this.rows().map((r) => r.children.map((c) => this.ui.text(c)));
    const want = front.slice().reverse();
    if (rows.length !== want.length || rows.some((r, i) => !near(r[0], want[i].loss) || r[1].trim() !== want[i].equation)) this.fail("rows", `rows ${JSON.stringify(rows)} for ${JSON.stringify(want)}`);
    lit(this.rows().map((r) => r.props.className), "row", (i) => want[i]?.id === rt.selectedId);
    // the plot
    const p = this.plot(), pts = rt.snapshot?.pareto_points ?? [];
    if (!p !== !pts.length) this.fail("plot", `${pts.length} points, plot ${!!p}`);
    if (p) {
      const d = p.props.data[0];
      const a = d.x.map((x, i) => [x, d.y[i]].join()).sort().join(" "), b = pts.map((q) => [q.complexity, q.loss].join()).sort().join(" ");
      if (d.x.length !== d.y.length || a !== b || p.props.data.length !== 1) this.fail("points", `points ${a} for ${b}`);
      const id = (i) => pts.find((q) => q.complexity === d.x[i])?.id; const at = (v, i) => (Array.isArray(v) ? v[i] : v);
      lit(d.x.map((_, i) => [at(d.marker.size, i), at(d.marker.color, i)]), "point", (i) => id(i) === rt.selectedId);
      lit(d.x.map((_, i) => at(d.marker.line, i)).filter((_, i) => id(i) !== rt.selectedId), "best", (k) => d.x.map((_, i) => id(i)).filter((x) => x !== rt.selectedId)[k] === rt.snapshot.best.id);
    }
    // the selected solution
    if (this.sel && rt.selectedId !== this.sel.id) this.fail("selected", `clicking ${this.sel.equation} selects ${rt.selectedId}`);
    const shown = this.sel ?? rt.snapshot?.best ?? null; const eq = this.byId("selected-equation");
    if (!shown !== !eq) this.fail("summary", `selected ${shown?.equation}, shown ${eq && this.ui.text(eq)}`);
    else if (eq) {
      const t = this.ui.text(this.root.find((n) => n.props.className === "smallText muted" && /complexity/.test(this.ui.text(n)))[0] ?? "");
      const m = /complexity\s*(\d+)\s*•\s*loss\s*(\S+)/.exec(t);
      if (this.ui.text(eq).trim() !== shown.equation || !m || +m[1] !== shown.complexity || !near(m[2], shown.loss)) this.fail("summary", `${this.ui.text(eq)}: ${t} for ${JSON.stringify(shown)}`);
    }
    // its metrics
    const ts = this.tables(); const quiet = !this.machineEvents().length;
    for (const [which, head] of [["train", "Train"], ["val", "Validation"]]) {
      const i = this.sel ? front.findIndex((m) => m.id === this.sel.id) : -1;
      const there = quiet && i >= 0 && (which === "train" || this.cfg.val);
      const t = ts[head];
      if (there && !t) { this.fail("no-metrics", `no ${head} metrics of ${this.sel.equation}`); continue; }
      if (t && i < 0) this.fail("metrics-of-none", head);
      if (!t || i < 0) continue;
      const m = metricsOf(this.cfg, i, which); const all = this.ui.text(this.more()[which] ?? "").trim() === "Hide", keys = all ? Object.keys(m) : ALWAYS;
      if (Object.keys(t).sort().join() !== keys.map((k) => LABELS[k]).sort().join()) this.fail("metrics-list", `${head}: ${Object.keys(t)} (${all ? "all" : "usual"})`);
      for (const k of keys) if (t[LABELS[k]] == null || !near(t[LABELS[k]], m[k])) this.fail("metric:" + k, `${head}: ${LABELS[k]} is ${m[k]}, shown ${t[LABELS[k]]}`);
    }
    if (ts.Validation && !this.cfg.val) this.fail("no-validation", "metrics of validation rows that do not exist");
    // progress
    const line = this.root.find((n) => n.type === "span" && /cycles \d+\/\d+/.test(this.ui.text(n)))[0];
    if (!line !== !rt.snapshot) this.fail("progress", "progress without a snapshot or the reverse");
    else if (line) {
      const t = this.ui.text(line), s = rt.snapshot, m = /cycles (\d+)\/(\d+) \(\s*([\d.]+)%\), evals=\s*(\d+)(?:, (\S+) eval\/s)?/.exec(t);
      const pc = s.total_cycles ? (100 * s.cycles_completed) / s.total_cycles : 0;
      if (!m || +m[1] !== s.cycles_completed || +m[2] !== s.total_cycles || Math.abs(+m[3] - pc) > 0.051 || +m[4] !== s.total_evals) this.fail("progress", `${t} for ${s.cycles_completed}/${s.total_cycles}, ${s.total_evals} evaluations`);
      else {
        const rates = this.snaps.slice(1).map(([t, x], k) => [(t - this.snaps[k][0]) / 1000, x.total_evals - this.snaps[k][1].total_evals]).filter(([dt]) => dt > 0).map(([dt, de]) => de / dt);
        if (m[5] != null && !(rates.length && +m[5] >= Math.min(...rates) * 0.999 - 1e-9 && +m[5] <= Math.max(...rates) * 1.001 + 1e-9)) this.fail("rate", `${m[5]} evaluations per second shown, ${rates} measured`);
        if (m[5] == null && rates.length) this.fail("rate", `no rate shown, ${rates} measured`);
      }
    }
    // what can be clicked
    const status = this.status(); if (status !== rt.status) this.fail("status", `${status} shown, is ${rt.status}`);
    const ops = st.unaryOps.length + st.binaryOps.length + st.ternaryOps.length > 0;
    for (const [what, n, can] of [["Initialize", this.byId("search-init"), ops && st.wasmLoaded], ["Start", this.byId("search-start"), ["ready", "paused"].includes(status)], ["Pause", this.button("Pause"), status === "running"], ["iterations", this.byId("opt-niterations"), ["idle", "error"].includes(status) && st.wasmLoaded]])
      if (!n || !n.props.disabled !== can) this.fail("enabled:" + what, `${what} is ${n?.props.disabled ? "disabled" : "enabled"} while ${status}`);
    if (rt.error && !this.root.find((n) => this.ui.text(n).includes(rt.error)).length) this.fail("error-text", `the reason ${rt.error} is not shown`);
  }
}
export function configs() {
  const out = [{ failLoad: true }, { noOps: true, list: 1, best: 0, m: 0 }];
  for (let list = 0; list < LOSSES.length; list++) for (let best = 0; best <= LOSSES[list].length; best++) for (const val of [false, true]) for (let m = 0; m < METRICS.length; m++) out.push({ list, best, val, m, stop: [Infinity, 1, 2][(list + best + m) % 3] });
  const gaps = [0, 250, 2000], more = [0, 10, 3000], evals = [];
  for (const a of more) for (const b of more) for (const c of more) evals.push([7, 7 + a, 7 + a + b, 7 + a + b + c]);
  for (const a of gaps) for (const b of gaps) for (const c of tier([0, 250], gaps)) for (const e of evals) out.push({ list: 2, best: 1, m: 0, val: false, gaps: [a, b, c], evals: e, total: 25, only: true });
  out.push({ list: 2, best: 0, m: 0, val: true, stop: 0, only: true }, { list: 3, best: 0, m: 0, val: true, total: 0, only: true });
  return out;
}
export async function run(fns, cfg, rep) {
  const one = async (seq) => {
    const w = (globalThis.__cur = new ShowWorld(fns, cfg));
    try {
      await w.boot();
      if (cfg.failLoad) { const rt = w.store.getState().runtime; if (w.status() !== "error" || !/no module/.test(w.ui.text(w.root.find((n) => n.props.className === "statusLine")[0] ?? ""))) w.fail("load-error-hidden", `the module cannot be loaded, status ${w.status()}: ${rt.error}`); w.state(); }
      for (const a of seq) { await w.do(a); rep.transitions++; }
      if (w.errors.length) w.fail("unhandled-error", w.errors[0]);
    } catch (e) { w.fail("exception:" + e.message.split("\n")[0], String(e.stack).split("\n").slice(0, 3).join(" ")); }
    rep.states++; rep.valid++;
    if (w.bad) rep.violation(w.bad[0], `${w.bad[1]}\n  configuration: ${JSON.stringify(cfg)}\n  history: ${seq.join(" ")}`);
    return w;
  };
  const first = await one([]);
  if (cfg.only || cfg.failLoad || cfg.noOps) return;
  const acts = first.actions();
  const depth = tier(acts.length > 7 ? 2 : 3, 3);
  const go = async (seq) => {
    if (rep.viol.size >= 20) return;
    if (rep.end && Date.now() > rep.end) { rep.exhaustive = false; return; }
    if (seq.length === depth) { await one(seq); return; }
    for (const a of acts) await go([...seq, a]);
  };
  await go([]);
  if (rep.samples.length < 2) rep.samples.push(JSON.stringify(cfg) + ": " + acts.slice(0, depth).join(" "));
}
