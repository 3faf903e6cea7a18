// Bundles the web UI's real sources (with stand-ins for the packages that are not installed) into
// functions that can be instantiated afresh for every explored execution.
import { createRequire } from "node:module";
import path from "node:path";
import { fileURLToPath } from "node:url";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
const here = path.dirname(fileURLToPath(import.meta.url));
export const UI = "/repo/web/ui/src";
const shim = (f) => path.join(here, "shims", f);
const map = [
  [/^react(\/jsx-runtime|\/jsx-dev-runtime)?$/, shim("react.mjs")],
  [/^zustand(\/.*)?$/, shim("zustand.mjs")],
  [/^papaparse$/, shim("papaparse.mjs")],
  [/^react-plotly\.js$/, shim("plot.mjs")],
  [/symbolic_regression_wasm(\.js)?$/, shim("wasm.mjs")],
  [/generated\/defaultCsv(\.ts)?$/, shim("csv.mjs")],
];
const plugin = { name: "shims", setup(b) {
  for (const [f, p] of map) b.onResolve({ filter: f }, () => ({ path: p }));
  b.onResolve({ filter: /\.css$/ }, (a) => ({ path: a.path, namespace: "empty" }));
  b.onLoad({ filter: /.*/, namespace: "empty" }, () => ({ contents: "" }));
} };
async function bundle(contents) {
  const r = await esbuild.build({ stdin: { contents, resolveDir: UI, loader: "ts" }, bundle: true, write: false, format: "cjs",
    jsx: "automatic", target: "es2022", plugins: [plugin], logLevel: "silent", define: { "import.meta.url": '"file:///ui/worker/x.ts"', "import.meta.env": "{}" } });
  return r.outputFiles[0].text;
}
export async function sources() {
  const ui = await bundle(`export { App } from "./app/App"; export * as store from "./state/sessionStore"; export * as plot from "./app/panes/searchSolutions/plotUtils";
    export { EnterData } from "./app/panes/EnterData"; export { SearchSolutions } from "./app/panes/SearchSolutions"; export { ModelingTask } from "./app/panes/ModelingTask";
    export { SrWorkerClient } from "./worker/srWorkerClient"; export { mount, text } from "react"; export { createElement } from "react";`);
  const worker = await bundle(`import "./worker/srWorker";`);
  return { ui, worker };
}
