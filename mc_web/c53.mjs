// C53: the fit plots pair the predictions of the selected solution with the rows they were made for, in
// the data the search was initialised with, whatever is edited meanwhile.
import { RunWorld, clash as clash51 } from "./c51.mjs";
import { table } from "./c52.mjs";
import { COMPLEXITY, splitOf } from "./world.mjs";
import { tier } from "./core.mjs";
const TEXTS = { orig: "x,z,y\n0,1,5\n1,2,6\n2,4,7\n3,8,8\n", other: "x,z,y\n10,20,30\n12,11,90\n17,21,35\n13,29,31\n", pair: "a,b\n4,-1\n3,-2\n2,-3\n1,-4\n", wide: "p,q,r,s\n1,21,31,41\n2,22,32,42\n3,23,33,43\n4,24,34,44\n", bad: "a,b\nq,r\n" };
export class FitWorld extends RunWorld {
  constructor(fns, cfg) { super(fns, cfg); this.data = null; }
  async boot() {
    await super.boot();
    if (this.cfg.setup) await this.edit(this.cfg.setup);
    if (this.cfg.shown) {
      this.actions += 3;
      for (const e of ["ui:init", "w0:msg", "u:msg0", "ui:start"]) await this.do(e);
      while (this.machineEvents().length) await this.do(this.machineEvents()[0]);
      await this.do(`ui:row${COMPLEXITY[2]}`);
      while (this.machineEvents().length) await this.do(this.machineEvents()[0]);
    }
  }
  enabled() {
    const out = super.enabled();
    if (this.actions > 0 && this.store.getState().tab === "run") for (const e of this.cfg.edits) out.push("ui:edit-" + e);
    return out;
  }
  byLabel(l) { return this.root.find((n) => n.type === "label" && n.children.some((c) => c.type === "div" && this.ui.text(c).startsWith(l)))[0]?.children.find((c) => c.type !== "div"); }
  boxes() { return this.root.find((n) => n.type === "div" && n.props.className === "checkboxGrid")[0]?.children.map((l) => l.children.find((c) => c.type === "input")) ?? []; }
  // a visit to the data tab
  async edit(list) {
    this.store.getState().setTab("data"); await this.settle();
    for (const e of list.split("+")) {
      const [k, v] = e.split("=");
      if (k === "text") this.root.find((n) => n.type === "textarea")[0].props.onChange({ target: { value: TEXTS[v] } });
      else if (k === "parse") this.click(this.byId("parse-preview"));
      else if (k === "y") { if (this.byLabel("y column")) this.byLabel("y column").props.onChange({ target: { value: v } }); }
      else if (k === "x") { const b = this.boxes()[+v]; if (b && !b.props.disabled) b.props.onChange({ target: {} }); }
      else if (k === "header") this.root.find((n) => n.type === "input" && n.props.type === "checkbox")[0].props.onChange({ target: { checked: !this.store.getState().options.has_headers } });
      await this.settle();
    }
    this.store.getState().setTab("run"); await this.settle();
  }
  async do(e) {
    if (e === "ui:init") {
      const st = this.store.getState(), o = st.options, t = table(st.csvText, o.has_headers);
      this.data = t && { t, y: o.y_column ?? t.n - 1, x: o.x_columns };
    }
    if (e.startsWith("ui:edit-")) { this.events.push(e); this.actions--; await this.edit(e.slice(8)); return; }
    await super.do(e);
  }
  check() {
    const other = super.check();
    if (other && other[0] !== "not-idle") return other; // a table that does not parse is an error while there is no search
    const st = this.store.getState();
    const plot = this.root.find((n) => n.type === "plot").find((p) => /^(x|y \(actual\))$/.test(p.props.layout.xaxis.title));
    if (!plot || this.mode !== "init" || !st.runtime.split) return null;
    const curve = plot.props.layout.xaxis.title === "x";
    const d = this.data, sel = st.runtime.selectedId, ev = (w) => st.runtime.evalByKey[`${sel}:${w}`];
    const traces = plot.props.data; const per = curve ? 2 : 1; const split = splitOf(this.inits);
    if (!d) return null;
    if (curve !== (d.x?.length === 1)) return ["mode", `${curve ? "curve" : "parity"} plot for X columns ${d.x}`];
    const key = (ps) => JSON.stringify(ps.map((p) => p.join()).sort());
    const want = split.val.length ? ["train", "val"] : ["train"];
    if (traces.length !== per * want.length) return ["traces", `${traces.length} traces for parts ${want}`];
    for (let i = 0; i < want.length; i++) {
      const w = want[i], rows = split[w], e = sel != null ? ev(w) : null, code = sel != null ? this.inits * 10000 + Number(sel) * 10 + (w === "val" ? 1 : 0) : 0;
      const y = (r) => d.t.rows[r][d.y], x = (r) => d.t.rows[r][d.x[0]], hat = (r) => code + r / 8;
      const pairs = (t) => t.x.map((a, k) => [a, t.y[k]]);
      const ts = traces.slice(per * i, per * i + per);
      for (const t of ts) if (!t.name.startsWith(w)) return ["traces", `trace ${t.name} stands for ${w}`];
      const shown = `${w}: ${JSON.stringify(ts.map((t) => [t.x, t.y]))}, rows ${rows}, member ${sel}`;
      if (curve) {
        if (key(pairs(ts[0])) !== key(rows.map((r) => [x(r), y(r)]))) return ["points", `the data points are not those of the search's data. ${shown}`];
        if (e && JSON.stringify(pairs(ts[1])) !== JSON.stringify(rows.map((r) => [x(r), hat(r)]).sort((a, b) => a[0] - b[0]))) return ["curve", `the curve is not the prediction at the rows. ${shown}`];
        if (!e && ts[1].y.length) return ["curve-of-other", shown];
      } else if (e) { if (ts[0].x.length !== ts[0].y.length || key(pairs(ts[0])) !== key(rows.map((r) => [y(r), hat(r)]))) return ["parity", `actual and predicted values are not of the same rows. ${shown}`]; }
      else if (ts[0].y.length) return ["parity-of-other", shown];
    }
    if (sel != null && ev("train")) this.rep?.note("plots_with_predictions", 1);
    return null;
  }
}
export function configs() {
  const a = tier(3, 4);
  const out = [];
  for (const setup of [null, "parse", "parse+x=1", "parse+y=0+x=2+x=1", "text=pair+parse", "parse+y=1"])
    for (const edits of [["text=other"], ["text=other+parse"], ["parse+y=0"], ["parse+x=0"], ["text=pair+parse"], ["text=wide+parse", "text=bad+parse"], ["header+parse"], ["y=0", "y=1"], ["x=0+x=1"], ["x=1+x=2"]]) for (const shown of [false, true]) out.push({ actions: shown ? a : tier(2, 4), setup, edits, rows: [COMPLEXITY[2]], total: 10, dt: 0, shown });
  return out;
}
export const make = (fns, cfg) => new FitWorld(fns, cfg);
export const clash = clash51;
export const split = 3;
