// The compiled module, provided by the harness.
const W = () => globalThis.__wasm;
export default function init(...a) { return W().init(...a); }
export function init_thread_pool(n) { return W().init_thread_pool(n); }
export function builtin_operator_registry() { return W().registry(); }
export function default_core_options() { return W().coreDefaults(); }
export function default_search_options() { return W().defaults(); }
export class WasmSearch { constructor(...a) { return W().search(...a); } }
