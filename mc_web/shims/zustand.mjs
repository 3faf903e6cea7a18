import { useSyncExternalStore } from "react";
export function createStore(init) {
  let state; const subs = new Set();
  const getState = () => state;
  const setState = (partial, replace) => {
    const next = typeof partial === "function" ? partial(state) : partial;
    if (Object.is(next, state)) return;
    const old = state;
    state = (replace ?? (typeof next !== "object" || next === null)) ? next : Object.assign({}, state, next);
    for (const f of [...subs]) f(state, old);
  };
  const subscribe = (f) => { subs.add(f); return () => subs.delete(f); };
  const api = { getState, setState, subscribe, getInitialState: () => initial };
  const initial = (state = init(setState, getState, api));
  return api;
}
export function create(init) {
  if (!init) return create;
  const api = createStore(init);
  const use = (sel = (s) => s) => useSyncExternalStore(api.subscribe, () => sel(api.getState()));
  return Object.assign(use, api);
}
export default create;
