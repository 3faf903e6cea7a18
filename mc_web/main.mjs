// node main.mjs <property>: explore every configuration of the property's module on all cores.
import { Worker, isMainThread, parentPort, workerData } from "node:worker_threads";
import os from "node:os";
import { Report, Explorer, thorough } from "./core.mjs";
import { compile } from "./world.mjs";
const MODS = { C50: "./c50.mjs", C51: "./c51.mjs", C52: "./c52.mjs", C53: "./c53.mjs", C54: "./c54.mjs", C55: "./c55.mjs" };
const BUDGET = (thorough ? 3000 : 300) * 1000;
process.on("unhandledRejection", (e) => { globalThis.__cur?.errors?.push("unhandled: " + e); });
async function load(id, src) {
  const mod = await import(MODS[id]);
  const fns = { ui: compile(src.ui), worker: compile(src.worker) };
  const cfgs = mod.configs();
  const explorer = (i, rep) => new Explorer(rep, () => (globalThis.__cur = mod.make(fns, cfgs[i])), mod.clash, JSON.stringify(cfgs[i]));
  return { mod, fns, cfgs, explorer };
}
process.on("uncaughtException", (e) => { console.error(e); process.exit(3); });
if (isMainThread) {
  const id = process.argv[2];
  const { sources } = await import("./build.mjs");
  const rep = new Report(id);
  let src;
  try { src = await sources(); } catch (e) { console.error("the web UI does not build: " + e.message); process.exit(2); }
  const L = await load(id, src);
  const tasks = [];
  if (L.mod.make) {
    for (let i = 0; i < L.cfgs.length; i++) {
      const t = []; await L.explorer(i, rep).dfs([], [], null, L.mod.split ?? 9, t);
      for (const [p, s] of t) tasks.push([i, p, s]);
    }
    rep.note("configurations", L.cfgs.length);
  } else for (let i = 0; i < L.cfgs.length; i++) tasks.push([i]);
  // long histories first is as good an order as any; a shared counter hands the tasks out
  const next = new Int32Array(new SharedArrayBuffer(4));
  const n = Math.min(os.availableParallelism(), Math.max(1, tasks.length));
  const results = await Promise.all(Array.from({ length: n }, () => new Promise((res, rej) => {
    const w = new Worker(new URL(import.meta.url), { workerData: { id, src, tasks, next, end: Date.now() + BUDGET }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
    w.on("message", res); w.on("error", rej); w.on("exit", (c) => { if (c) rej(new Error("exit " + c)); });
  })));
  for (const r of results) rep.merge({ ...r, viol: new Map(r.viol), assumptions: new Set(r.assumptions) });
  L.mod.finish?.(rep);
  process.exit(rep.finish());
} else {
  const { id, src, tasks, next, end } = workerData;
  const L = await load(id, src);
  const rep = new Report(id); rep.end = end;
  for (;;) {
    const k = Atomics.add(next, 0, 1);
    if (k >= tasks.length) break;
    const [i, prefix, sleep] = tasks[k];
    if (L.mod.make) await L.explorer(i, rep).dfs(prefix, sleep, null, null, []);
    else await L.mod.run(L.fns, L.cfgs[i], rep);
  }
  parentPort.postMessage(rep.plain());
}
