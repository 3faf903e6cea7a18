// C52: every state of the data tab that user actions can reach (explicit-state search to closure), each
// action compared with a reference model, each state with what the CSV says.
import { World } from "./world.mjs";
import { thorough } from "./core.mjs";
const num = (s) => (s.trim() === "" ? 0 : Number(s));
// The reference reading of a CSV text: comma-separated cells, empty lines ignored.
export function table(text, header) {
  let lines = text.split("\n").filter((l) => l !== "").map((l) => l.split(","));
  if (!lines.length) return null;
  let names = null;
  if (header) names = lines.shift();
  const rows = lines.map((l) => l.map(num)).filter((r) => r.every(Number.isFinite));
  if (!rows.length) return null;
  const n = rows[0].length;
  if (!names || names.length !== n) names = Array.from({ length: n }, (_, i) => `col_${i}`);
  return { names, rows, n };
}
const TEXTS = {
  three: "x,z,y\n0,1,5\n1,2,6\n2,4,7\n3,8,8\n",
  two: "a,b\n0.1,-1e6\n0.1,2.5\n0.1,1e-3\n",
  four: "p,q,r,s\n1,2,3,4\n5,6,7,9\n",
  one: "v\n-1\n-2\n",
  shift: "x,z,y\n1000000.25,1,1\n1000000.75,1,1\n",
  bad: "x,z,y\nalpha,beta,gamma\n",
  empty: "",
  twice: "a,a,b\n1,2,3\n4,5,7\n",
  again: "b,a,a\n1,2,3\n4,5,7\n",
  // more columns and rows than a preview shows, column numbers of two digits
  wide: Array.from({ length: 15 }, (_, r) => Array.from({ length: 14 }, (_, c) => (r === 0 ? "c" + c : r * 0.5 + c * c - ((r * c) % 5))).join(",")).join("\n") + "\n",
  ragged: "u,w,t\n1,2,3\nno,2,3\n4,5,6\n",
};
export function configs() {
  const t = thorough;
  return [["three", "two"], ["three", "four"], ["three", "bad"], ["two", "one"], ["ragged", "shift"], ["empty", "two"], ["four", "one"], ["shift", "three"], ["twice", "again"],
    ...(t ? [["three", "two", "four"], ["four", "ragged", "bad"], ["three", "one", "empty"]] : [])].map((texts) => ({ texts })).concat([{ texts: ["wide"], only: { x: [2, 9, 11], y: [13, 10], w: ["", 3, 9], inspect: [2, 9, 11] } },
    // files whose reading takes its time: two of them may be on their way, and either may be read first
    { texts: t ? ["three", "two", "four"] : ["three", "two"], slow: t ? 3 : 2, only: { file: [], inspect: [], w: [] } }]);
}
export class DataWorld extends World {
  constructor(fns, cfg) { super(fns, cfg); this.m = null; this.reads = []; this.dropped = 0; }
  async boot() {
    await this.settle();
    this.store.getState().setTab("data"); await this.settle();
    const o = this.store.getState().options;
    this.m = { text: this.store.getState().csvText, header: o.has_headers, y: null, w: null, x: null, table: null, inspect: 0 };
  }
  selects() { return this.root.find((n) => n.type === "select"); }
  field(label) { return this.root.find((n) => n.type === "label" && n.children.some((c) => c.type === "div" && this.ui.text(c).startsWith(label)))[0]?.children.find((c) => c.type !== "div"); }
  boxes() { return this.root.find((n) => n.type === "div" && n.props.className === "checkboxGrid")[0]?.children.map((l) => l.children.find((c) => c.type === "input")) ?? []; }
  actions() {
    const out = ["header", "parse", ...this.cfg.texts.map((t) => "text:" + t), ...this.cfg.texts.map((t) => "file:" + t)];
    if (this.reads.length < (this.cfg.slow ?? 0)) out.push(...this.cfg.texts.map((t) => "drop:" + t));
    this.reads.forEach((_, i) => out.push("read:" + i));
    const opts = (n) => n.children.filter((o) => !o.props.disabled).map((o) => o.props.value);
    const y = this.field("y column"); if (y) for (const v of opts(y)) out.push("y:" + v);
    const w = this.field("weights"); if (w) for (const v of opts(w)) out.push("w:" + v);
    this.boxes().forEach((b, i) => { if (!b.props.disabled) out.push("x:" + i); });
    const ix = this.field("x column"); if (ix) for (const v of opts(ix)) out.push("inspect:" + v);
    const only = this.cfg.only; // the choices a table of many columns is explored with
    return only ? out.filter((a) => { const [k, v] = a.split(":"); return !(k in only) || only[k].some((c) => String(c) === v); }) : out;
  }
  ev(value, checked) { return { target: { value: String(value), checked }, preventDefault() {}, stopPropagation() {} }; }
  async do(a) {
    const [k, v] = a.split(":"); const m = this.m;
    const reparse = () => {
      m.table = table(m.text, m.header);
      if (!m.table) return;
      const n = m.table.n, ok = (c) => c != null && c < n;
      const y = ok(m.y) ? m.y : n - 1, w = ok(m.w) && m.w !== y ? m.w : null;
      const use = (c) => c < n && c !== y && c !== w;
      const kept = m.x && m.x.filter(use);
      m.x = kept && (kept.length || !m.x.length) ? kept : Array.from({ length: n }, (_, i) => i).filter(use);
      m.y = y; m.w = w;
    };
    if (k === "header") {
      this.root.find((n) => n.type === "input" && n.props.type === "checkbox")[0].props.onChange(this.ev("", !m.header));
      m.header = !m.header; m.table = null;
    } else if (k === "parse") { this.click(this.byId("parse-preview")); reparse(); }
    else if (k === "text") { this.root.find((n) => n.type === "textarea")[0].props.onChange(this.ev(TEXTS[v])); if (m.text !== TEXTS[v]) m.table = null; m.text = TEXTS[v]; }
    else if (k === "file") {
      const z = this.byId("csv-dropzone");
      z.props.onDrop({ preventDefault() {}, stopPropagation() {}, dataTransfer: { files: [{ text: async () => TEXTS[v] }] } });
      if (m.text !== TEXTS[v]) m.table = null;
      m.text = TEXTS[v]; await this.settle(); reparse();
    } else if (k === "drop") {
      const n = ++this.dropped, r = { v, n };
      this.byId("csv-dropzone").props.onDrop({ preventDefault() {}, stopPropagation() {}, dataTransfer: { files: [{ text: () => new Promise((f) => (r.done = f)) }] } });
      this.reads.push(r);
    } else if (k === "read") {
      const [r] = this.reads.splice(+v, 1);
      r.done(TEXTS[r.v]); await this.settle();
      if (r.n === this.dropped) { if (m.text !== TEXTS[r.v]) m.table = null; m.text = TEXTS[r.v]; reparse(); } // of several files the last one dropped
    } else if (k === "y") { this.field("y column").props.onChange(this.ev(v)); m.y = +v; if (m.w === m.y) m.w = null; m.x = m.x.filter((c) => c !== m.y && c !== m.w); }
    else if (k === "w") { this.field("weights").props.onChange(this.ev(v)); m.w = v === "" ? null : +v; m.x = m.x.filter((c) => c !== m.y && c !== m.w); }
    else if (k === "x") { this.boxes()[+v].props.onChange(this.ev("", true)); m.x = m.x.includes(+v) ? m.x.filter((c) => c !== +v) : [...m.x, +v].sort((a, b) => a - b); }
    else if (k === "inspect") this.field("x column").props.onChange(this.ev(v));
    await this.settle();
  }
  // component state (it decides what happens next even where it is not shown)
  hidden() { return [...this.root.insts].map(([p, i]) => [p, i.hooks.filter((h) => h && "set" in h).map((h) => h.v)]).filter(([, h]) => h.length); }
  // what an observer of the page and the options sees
  view() {
    const st = this.store.getState(), o = st.options;
    const rowsOf = (t) => this.root.find((n) => n === t)[0].children.flatMap((g) => g.children).map((r) => r.children.map((c) => this.ui.text(c)));
    const tables = this.root.find((n) => n.type === "table").map(rowsOf);
    const ix = this.field("x column"); const plot = this.root.find((n) => n.type === "plot")[0];
    return { text: st.csvText, header: o.has_headers, y: o.y_column, w: o.weights_column, x: o.x_columns, tables, note: this.root.find((n) => n.props.className === "muted").map((n) => this.ui.text(n)).filter((t) => /Parsed/.test(t)),
      ysel: this.field("y column")?.props.value ?? null, wsel: this.field("weights")?.props.value ?? null, boxes: this.boxes().map((b) => [b.props.checked, !!b.props.disabled]), inspect: ix ? +ix.props.value : null,
      plot: plot ? [plot.props.data[0].x, plot.props.data[0].y, plot.props.layout.xaxis.title, plot.props.layout.yaxis.title] : null, status: st.runtime.status, raw: this.root.find((n) => n.type === "textarea")[0].props.value };
  }
  judge() {
    const v = this.view(), m = this.m, t = m.table, same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
    if (this.errors.length) return ["unhandled-error", this.errors[0]];
    if (v.text !== m.text || v.raw !== m.text) return ["text", "the text is not the one entered"];
    if (v.header !== m.header) return ["header", "the header switch is not as set"];
    if (m.y != null && !same([v.y, v.w, v.x], [m.y, m.w, m.x])) return ["columns", `columns are y=${v.y} w=${v.w} x=${v.x}, expected y=${m.y} w=${m.w} x=${m.x}`];
    if (!t) return v.tables.length || v.note.length || v.plot ? ["stale-preview", "a preview is shown that does not belong to the text"] : null;
    const { names, rows, n } = t;
    if (!(v.y >= 0 && v.y < n) || (v.w != null && !(v.w >= 0 && v.w < n && v.w !== v.y)) || v.x.some((c) => !(c >= 0 && c < n) || c === v.y || c === v.w) || new Set(v.x).size !== v.x.length)
      return ["choice", `column choices y=${v.y} w=${v.w} x=${v.x} of ${n} columns overlap or do not exist`];
    if (v.ysel !== String(m.y) || v.wsel !== (m.w == null ? "" : String(m.w))) return ["pickers", "the pickers do not show the choices"];
    if (!same(v.boxes, names.map((_, i) => [m.x.includes(i), i === m.y || i === m.w]))) return ["boxes", `the X boxes ${JSON.stringify(v.boxes)} do not show the choices`];
    if (!same(v.note, [`Parsed ${rows.length} rows × ${n} columns.`])) return ["counts", `${v.note} for ${rows.length} rows and ${n} columns`];
    const [pre, sum] = v.tables;
    if (!pre || !same(pre, [names.slice(0, 12), ...rows.slice(0, 12).map((r) => r.slice(0, 12).map((c) => c.toFixed(4)))])) return ["preview", "the preview is not the table"];
    if (!sum || sum.length !== n + 1) return ["summary-rows", `${sum && sum.length - 1} columns summarised of ${n}`];
    for (let j = 0; j < n; j++) {
      const c = rows.map((r) => r[j]), mean = c.reduce((a, b) => a + b) / c.length, sd = Math.sqrt(c.reduce((a, b) => a + (b - mean) ** 2, 0) / c.length);
      const want = [mean, sd, Math.min(...c), Math.max(...c)], got = sum[1 + j].slice(1).map(Number), scale = Math.max(...c.map(Math.abs));
      if (sum[1 + j][0] !== names[j] || want.some((x, i) => !(Math.abs(x - got[i]) <= 6e-4 * Math.abs(x) + 1e-9 * scale))) return ["summary", `summary of column ${names[j]}: ${sum[1 + j]} instead of ${want}`];
    }
    if (m.x.length) {
      if (!m.x.includes(v.inspect)) return ["inspect", `column ${v.inspect} is plotted, X columns are ${m.x}`];
      if (!v.plot || !same(v.plot, [rows.map((r) => r[v.inspect]), rows.map((r) => r[m.y]), names[v.inspect], names[m.y]])) return ["scatter", `the plot ${JSON.stringify(v.plot)} does not show column ${v.inspect} against ${m.y}`];
    } else if (v.plot) return ["scatter", "a plot without X columns"];
    return null;
  }
}
export async function run(fns, cfg, rep) {
  const fresh = async (path) => { const w = (globalThis.__cur = new DataWorld(fns, cfg)); await w.boot(); for (const a of path) await w.do(a); return w; };
  const seen = new Set(); const queue = [[]]; let deepest = [];
  const visit = (w, path) => {
    const bad = w.judge();
    if (bad) { rep.violation(bad[0], `${bad[1]}\n  texts: ${cfg.texts}\n  history: ${path.join(" ")}`); return false; }
    const k = JSON.stringify([w.view(), w.m, w.hidden(), w.reads.map((r) => [r.v, r.n === w.dropped])]);
    if (seen.has(k)) return false;
    seen.add(k); rep.states++; return true;
  };
  visit(await fresh([]), []);
  for (let q = 0; q < queue.length; q++) {
    const path = queue[q]; if (path.length > deepest.length) deepest = path;
    if (rep.viol.size >= 20) break;
    if (rep.end && Date.now() > rep.end) { rep.exhaustive = false; break; }
    const acts = (await fresh(path)).actions();
    for (const a of acts) {
      let w; const hist = [...path, a];
      try { w = await fresh(hist); rep.transitions += hist.length; rep.valid++; if (visit(w, hist)) queue.push(hist); }
      catch (e) { rep.violation("exception:" + String(e.message).split("\n")[0], String(e.stack).split("\n").slice(0, 3).join(" ") + `\n  history: ${hist.join(" ")}`); }
    }
  }
  rep.samples.push(`${cfg.texts}: ${deepest.join(" ")}`);
}
