// Counters, evidence, known findings, verdict (same conventions as mc_core), and the explorer.
import fs from "node:fs"; import path from "node:path"; import { fileURLToPath } from "node:url";
export const VERIF = process.env.VERIF_DIR ?? path.dirname(path.dirname(fileURLToPath(import.meta.url)));
export const thorough = process.env.VERIF_TIER === "thorough";
export const tier = (q, t) => (thorough ? t : q);
export class Report {
  constructor(id) { this.id = id; this.t0 = Date.now(); this.states = 0; this.transitions = 0; this.valid = 0; this.notes = {}; this.samples = []; this.viol = new Map(); this.assumptions = new Set(); this.exhaustive = true; }
  violation(key, text) { if (!this.viol.has(key) && this.viol.size < 200) this.viol.set(key, text); }
  note(k, n) { this.notes[k] = (this.notes[k] ?? 0) + n; }
  merge(r) {
    this.states += r.states; this.transitions += r.transitions; this.valid += r.valid;
    for (const [k, v] of Object.entries(r.notes)) this.note(k, v);
    for (const s of r.samples) if (this.samples.length < 12) this.samples.push(s);
    for (const [k, t] of r.viol) this.violation(k, t);
    for (const a of r.assumptions) this.assumptions.add(a);
    this.exhaustive &&= r.exhaustive;
  }
  plain() { return { states: this.states, transitions: this.transitions, valid: this.valid, notes: this.notes, samples: this.samples, viol: [...this.viol], assumptions: [...this.assumptions], exhaustive: this.exhaustive }; }
  finish() {
    const known = [];
    try {
      for (const l of fs.readFileSync(path.join(VERIF, "known_findings.txt"), "utf8").split("\n")) {
        const m = /^known: property=(\S+) key=(.*?) :: (.*)$/.exec(l);
        if (m && m[1] === this.id) known.push([m[2].trim(), m[3].trim()]);
      }
    } catch {}
    for (const [k, what] of known) console.log(`KNOWN-FINDING: property=${this.id} ${what} [${k}]`);
    const fresh = [...this.viol].filter(([k]) => !known.some(([q]) => q === k));
    let code = 0;
    if (fresh.length) {
      code = 1;
      fs.mkdirSync(path.join(VERIF, "replays"), { recursive: true });
      const p = path.join(VERIF, "replays", `${this.id}.txt`);
      fs.writeFileSync(p, fresh.slice(0, 50).map(([k, t]) => `key: ${k}\n${t}\n\n`).join(""));
      for (const [k, t] of fresh.slice(0, 8)) console.log(`  ${k}: ${t.split("\n")[0]}`);
      console.log(`VIOLATION property=${this.id} replay=${p}`);
    }
    const wall = (Date.now() - this.t0) / 1000;
    fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
    fs.writeFileSync(path.join(VERIF, "evidence", `${this.id}.json`), JSON.stringify({ property: this.id, tier: thorough ? "thorough" : "quick", seed: Number(process.env.VERIF_SEED ?? 1), level: "model_checking",
      coverage: { states: this.states, transitions: this.transitions, traces_validated_against_impl: this.valid, exhaustive: this.exhaustive, ...this.notes, samples: this.samples }, assumptions: [...this.assumptions], wall_s: wall, violations: fresh.length }) + "\n");
    console.log(`${this.id}: states=${this.states} transitions=${this.transitions} validated=${this.valid} wall=${wall.toFixed(1)}s violations=${fresh.length}`);
    return code;
  }
}

// Depth-first exploration of every execution of `make()` by replay, with sleep sets: events of
// events that do not `clash(a, b)` commute, so only one order of adjacent commuting events is explored.
// `make()` gives { enabled(): string[], do(e): Promise, check(report, history), quiescent(): bool }.
export class Explorer {
  constructor(rep, make, clash, label) { this.rep = rep; this.make = make; this.clash = clash; this.label = label; }
  async replay(prefix) {
    const w = this.make(); w.rep = this.rep; await w.boot();
    for (const e of prefix) {
      if (!w.enabled().includes(e)) throw new Error(`replay diverged at ${e} in ${prefix.join(" ")}`);
      await w.do(e); this.rep.transitions++;
    }
    return w;
  }
  // `limit`: stop descending at this depth and hand the node over as a task.
  async dfs(prefix, sleep, world, limit, tasks) {
    const rep = this.rep;
    if (rep.viol.size >= 20) return;
    if (rep.end && Date.now() > rep.end) { rep.exhaustive = false; return; }
    if (limit != null && prefix.length >= limit) { tasks.push([prefix, sleep]); return; }
    let w;
    try { w = world ?? (await this.replay(prefix)); }
    catch (err) { rep.violation("cannot-start", `${String(err.stack).split("\n").slice(0, 3).join(" ")}\n  configuration: ${this.label}\n  history: ${prefix.join(" ")}`); return; }
    rep.states++;
    const en = w.enabled();
    if (!en.length) { rep.valid++; if (rep.samples.length < 3 && rep.valid % 97 === 1) rep.samples.push(`${this.label}: ${prefix.join(" ")}`); return; }
    const asleep = new Set(sleep);
    for (const e of en) {
      if (asleep.has(e)) continue;
      const x = w ?? (await this.replay(prefix)); w = null;
      rep.transitions++;
      const hist = [...prefix, e];
      let bad;
      try { await x.do(e); bad = x.check(hist); } catch (err) { bad = ["exception:" + String(err.message).split("\n")[0], String(err.stack).split("\n").slice(0, 4).join(" ")]; }
      if (bad) rep.violation(bad[0], `${bad[1]}\n  configuration: ${this.label}\n  history: ${hist.join(" ")}\n  log: ${(x.trace?.() ?? []).join(" | ")}`);
      else await this.dfs(hist, [...asleep].filter((s) => !this.clash(s, e)), x, limit, tasks);
      asleep.add(e);
    }
  }
}
