// C51: what the Run pane shows belongs to the search the user asked for, in every interleaving of user
// actions, message deliveries, timers and module loading.
import { COMPLEXITY, World } from "./world.mjs";
import { tier } from "./core.mjs";
export class RunWorld extends World {
  constructor(fns, cfg) { super(fns, cfg); this.inits = 0; this.mode = "none"; this.started = false; this.actions = cfg.actions; this.last = null; this.selected = null; this.seen = []; }
  async boot() { await this.settle(); this.store.getState().setTab("run"); await this.settle(); if (this.cfg.before) for (const e of this.cfg.before) await this.do(e); }
  enabled() {
    const out = this.machineEvents();
    if (this.actions > 0) {
      const st = this.store.getState();
      if (st.tab === "run") {
        if (this.canClick(this.byId("search-init"))) out.push("ui:init");
        if (this.canClick(this.byId("search-start"))) out.push("ui:start");
        if (this.canClick(this.button("Pause"))) out.push("ui:pause");
        if (this.canClick(this.button("Reset")) && !(this.mode !== "init")) out.push("ui:reset");
        for (const r of this.rows()) if (this.cfg.rows && this.cfg.rows.includes(this.complexityOf(r))) out.push("ui:row" + this.complexityOf(r));
        for (const i of this.cfg.points ?? []) if (this.paretoPlot()?.props.data[0].x.length > i) out.push("ui:point" + i);
        if (this.cfg.tabs) out.push("ui:away");
      } else out.push("ui:back");
    }
    return out;
  }
  paretoPlot() { return this.root.find((n) => n.type === "plot" && n.props.layout.xaxis.title === "complexity")[0]; }
  rows() { return this.root.find((n) => String(n.props["data-testid"] ?? "").startsWith("solution-row-")); }
  tag(t) { const m = /s(\d+)@(\d+)#(\d+)/.exec(t); return m && { n: +m[1], cycles: +m[2], i: +m[3] }; }
  complexityOf(r) { const t = this.tag(this.ui.text(r)); return t ? COMPLEXITY[t.i] : -1; }
  async do(e) {
    this.events.push(e);
    if (!(await this.machine(e))) {
      this.actions--;
      if (e === "ui:init") { this.inits++; this.mode = "init"; this.started = false; this.store.getState().setOptionsPatch({ seed: this.inits }); this.root.flush(); this.click(this.byId("search-init")); }
      else if (e === "ui:start") { this.started = true; this.last = "start"; this.click(this.byId("search-start")); }
      else if (e === "ui:pause") { this.last = "pause"; this.click(this.button("Pause")); }
      else if (e === "ui:reset") { this.mode = "reset"; this.started = false; this.click(this.button("Reset")); }
      else if (e === "ui:away") this.store.getState().setTab("data");
      else if (e === "ui:back") this.store.getState().setTab("run");
      else if (e.startsWith("ui:point")) this.paretoPlot().props.onClick({ points: [{ pointIndex: +e.slice(8) }] });
      else if (e.startsWith("ui:row")) { const r = this.rows().find((r) => "ui:row" + this.complexityOf(r) === e); this.click(r); }
    }
    await this.settle();
    if (e === "ui:init" || e === "ui:reset") this.seen = [];
    const s = this.store.getState().runtime.snapshot;
    if (s && s !== this.seen.at(-1)?.s) this.seen.push({ s, at: this.now() });
  }
  quiescent() { return this.machineEvents().length === 0; }
  cur() { return this.searches.filter((s) => s.n === this.inits).at(-1); }
  trace() { return this.log; }
  shown() {
    const out = [];
    for (const r of this.rows()) out.push(["solutions", this.tag(this.ui.text(r))]);
    const sel = this.byId("selected-equation"); if (sel) out.push(["selected equation", this.tag(this.ui.text(sel))]);
    const line = this.root.find((n) => n.type === "span" && /cycles \d+\/\d+/.test(this.ui.text(n)))[0];
    if (line) { const m = /evals=\s*(\d+)/.exec(this.ui.text(line)); out.push(["progress", { n: Math.floor(+m[1] / 1000), cycles: +m[1] % 1000 }]); }
    for (const c of this.root.find((n) => n.type === "tr" && n.children.length === 2 && this.ui.text(n.children[0]) === "n")) out.push(["metrics", this.code(+this.ui.text(c.children[1]))]);
    return out;
  }
  code(v) { return { n: Math.floor(v / 10000), member: String(Math.floor((v % 10000) / 10)), which: v % 10 ? "val" : "train" }; }
  // what the status line makes of the snapshots taken since the search was initialised
  progress() {
    const rt = this.store.getState().runtime, s = rt.snapshot;
    const line = this.root.find((n) => n.type === "span" && /cycles \d+\/\d+/.test(this.ui.text(n)))[0];
    if (!s || !line) return null;
    const t = this.ui.text(line), [, a, b, p] = /cycles (\d+)\/(\d+) \(([\d.]+)%\)/.exec(t) ?? [];
    if (+a !== s.cycles_completed || +b !== s.total_cycles || !(Math.abs(p - (s.total_cycles ? (100 * a) / b : 0)) < 0.06)) return ["progress-line", `"${t}" for ${s.cycles_completed} of ${s.total_cycles} cycles`];
    const rates = this.seen.slice(1).map((x, i) => (x.s.total_evals - this.seen[i].s.total_evals) / ((x.at - this.seen[i].at) / 1000));
    const r = /, ([-+.\de]+) eval\/s/.exec(t);
    if (r && !(+r[1] >= Math.min(...rates) * 0.999 && +r[1] <= Math.max(...rates) * 1.001)) return ["rate", `${r[1]} evaluations per second are shown, between the snapshots of this search there were ${JSON.stringify(rates)}`];
    return null;
  }
  check() {
    const st = this.store.getState(); const rt = st.runtime;
    if (this.errors.length) return ["unhandled-error", this.errors[0]];
    if (st.tab === "run") {
      for (const [what, t] of this.shown()) {
        if (!t) return ["unreadable:" + what, `${what}: unexpected text`];
        if (this.mode === "none" || t.n !== this.inits) return ["stale:" + what, `${what} of search ${t.n} shown although the user asked for ${this.mode === "none" ? "none" : "search " + this.inits}`];
        if (what === "selected equation" && (t.i === 1 ? 100 + t.cycles : t.i) !== Number(rt.selectedId ?? 2)) return ["selected-other", `equation ${JSON.stringify(t)} is shown as the selected one although ${rt.selectedId ?? "the best one"} is`];
        if (what === "metrics" && rt.selectedId != null && t.member !== rt.selectedId) return ["metrics-of-other", `metrics of member ${t.member} shown for ${rt.selectedId}`];
      }
      const bad = this.progress(); if (bad) return bad;
      // metrics stand under the heading of their part of the data
      const sub = this.root.find((n) => n.props.className === "subTitle" || (n.type === "tr" && n.children.length === 2 && this.ui.text(n.children[0]) === "n"));
      let head = null;
      for (const n of sub) { if (n.type !== "tr") head = this.ui.text(n); else if (head === "Train" || head === "Validation") { const c = this.code(+this.ui.text(n.children[1])); if ((head === "Train") !== (c.which === "train")) return ["metrics-part", `${head} shows metrics of ${c.which}`]; } }
    }
    if (this.twoLoops) return ["two-loops", "two loops step the search at the same time"];
    for (const s of this.searches) if (s.worker.dead && s.steps.length && s.steps.at(-1) === this.events.length) return ["steps-after-end", "a search of a terminated worker is stepped"];
    if (!this.quiescent()) return null;
    // nothing is in flight any more: the status must be the truth
    const status = rt.status; const s = this.cur();
    const say = (k, t) => [k, `${t} (status ${status}${rt.error ? ": " + rt.error : ""})`];
    if (this.mode !== "init") return status === "idle" && !rt.snapshot && rt.front.length === 0 && !rt.split && Object.keys(rt.evalByKey).length === 0 ? null : say("not-idle", `after ${this.mode === "reset" ? "a reset" : "the start"} nothing is running`);
    const fails = (this.cfg.failInit ?? []).includes(this.inits);
    if (fails) return status === "error" && /bad data/.test(rt.error ?? "") ? null : say("init-error-hidden", "the initialisation failed");
    if (!s) return say("not-initialised", "the search was not created");
    if (s.worker.dead) return say("lost", "the search was lost");
    if (s.failed) return status === "error" && /step failed/.test(rt.error ?? "") ? null : say("step-error-hidden", "the search failed");
    if (!this.started) return status === "ready" ? null : say("not-ready", "the search is ready to start");
    if (s.cycles >= s.total) {
      if (this.last === "pause" && status === "paused") return null; // resuming it finds the end
      if (status !== "done") return say("not-done", "the search is finished");
      if (rt.snapshot?.cycles_completed !== s.total) return say("final-snapshot", "the final state is not shown");
      if (rt.front.some((m) => this.tag(m.equation)?.cycles !== s.cycles)) return say("final-front", "the final solutions are not shown");
    } else {
      if (this.last === "start") return say("stopped", "the search stands still although it was started");
      if (status !== "paused") return say("not-paused", "the search is paused");
    }
    // the selected solution is evaluated, whatever happened to the list meanwhile
    if (rt.selectedId != null && s.front().some((m) => m.id === rt.selectedId) && st.tab === "run") {
      if ([":train", ...(rt.split?.val.length ? [":val"] : [])].some((w) => !rt.evalByKey[rt.selectedId + w])) return say("not-evaluated", `the selected solution ${rt.selectedId} was not evaluated`);
    }
    if (rt.selectedComplexity != null && rt.front.length && st.tab === "run") {
      const below = rt.front.filter((m) => m.complexity <= rt.selectedComplexity).map((m) => m.complexity);
      const c = below.length ? Math.max(...below) : Math.min(...rt.front.map((m) => m.complexity));
      const want = rt.front.filter((m) => m.complexity === c).at(-1);
      if (want && want.id !== rt.selectedId) return say("selection", `solution of complexity ${rt.selectedComplexity} was chosen, ${rt.selectedId} is shown`);
    }
    return null;
  }
}
export function configs() {
  const a = tier(4, 5), b = tier(3, 4);
  return [{ actions: a }, { actions: a, dt: 0 }, { actions: a, slowInit: true }, { actions: a, tabs: true }, { actions: a, rows: [3] }, { actions: a, failInit: [1] }, { actions: a, failInit: [2] },
    { actions: a, failStep: 110 }, { actions: a, failStep: 100 }, { actions: b, tabs: true, slowInit: true, rows: [1, 4] }, { actions: b, total: 40, rows: [3] }, { actions: a, points: [0, 1] }, { actions: a, rows: [3, 4], drop: [1] }, { actions: b, rows: [1, 3], drop: [0, 1], total: 30 }, { actions: b, rows: [4], drop: [2] }, { actions: b, rows: [1, 4], drop: [2, 0] }, { actions: a, total: 0 }];
}
export const make = (fns, cfg) => new RunWorld(fns, cfg);
const proc = (e) => (e.startsWith("w") ? e.split(":")[0] : "ui");
export const clash = (a, b) => proc(a) === proc(b);
export const split = 6;
