// A small React: function components, hooks, keyed children; rendering is synchronous and happens when
// the harness calls `flush`. Only what an observer of the component tree can see is kept.
let current = null; // { inst, i, root }
const Fragment = Symbol.for("mini.fragment");
export { Fragment };
export function createElement(type, props, ...children) {
  const p = { ...(props ?? {}) };
  const key = p.key ?? null; delete p.key;
  if (children.length === 1) p.children = children[0];
  else if (children.length > 1) p.children = children;
  return { $el: true, type, props: p, key };
}
export function jsx(type, props, key) {
  const p = { ...props }; const k = key ?? p.key ?? null; delete p.key;
  return { $el: true, type, props: p, key: k };
}
export const jsxs = jsx, jsxDEV = jsx;
const same = (a, b) => a && b && a.length === b.length && a.every((v, i) => Object.is(v, b[i]));
function hook(init) {
  if (!current) throw new Error("hook called outside a component");
  const { inst } = current; const i = current.i++;
  if (inst.hooks.length <= i) inst.hooks.push(init());
  return inst.hooks[i];
}
export function useState(init) {
  const { inst, root } = current ?? {};
  const h = hook(() => ({ v: typeof init === "function" ? init() : init, set: null }));
  if (!h.set) h.set = (x) => {
    const n = typeof x === "function" ? x(h.v) : x;
    if (!Object.is(n, h.v)) { h.v = n; if (!inst.dead) root.dirty = true; }
  };
  return [h.v, h.set];
}
export function useReducer(r, init, f) {
  const [s, set] = useState(() => (f ? f(init) : init));
  return [s, (a) => set((v) => r(v, a))];
}
export function useRef(init) { return hook(() => ({ current: init })); }
export function useMemo(f, deps) {
  const h = hook(() => ({ deps: null, v: undefined, done: false }));
  if (!h.done || !deps || !same(h.deps, deps)) { h.v = f(); h.deps = deps; h.done = true; }
  return h.v;
}
export function useCallback(f, deps) { return useMemo(() => f, deps); }
export function useEffect(f, deps) {
  const h = hook(() => ({ effect: true, deps: null, cleanup: null, done: false, pending: null }));
  if (!h.done || !deps || !same(h.deps, deps)) { h.pending = f; h.deps = deps; h.done = true; }
}
export const useLayoutEffect = useEffect, useInsertionEffect = useEffect;
export function useSyncExternalStore(subscribe, get) {
  const { root, inst } = current;
  const h = hook(() => ({ effect: true, sub: null, un: null }));
  h.get = get; const v = get(); h.last = v;
  if (h.sub !== subscribe) {
    h.un?.(); h.sub = subscribe;
    h.un = subscribe(() => { if (!inst.dead && !Object.is(h.get(), h.last)) root.dirty = true; });
  }
  return v;
}
export function useContext(c) { return c.value; }
export function createContext(v) { const c = { value: v, Provider: (p) => { c.value = p.value; return p.children; } }; return c; }
export function useId() { return hook(() => "id" + Math.floor(1e6)); }
export function useTransition() { return [false, (f) => f()]; }
export function useDeferredValue(v) { return v; }
export const startTransition = (f) => f();
export const memo = (c) => c;
export const forwardRef = (c) => (p) => c(p, p.ref);
export const StrictMode = Fragment, Suspense = Fragment;

// A mounted tree. `view()` gives the host elements as { type, props, children }.
export function mount(el) {
  const root = { dirty: true, insts: new Map(), lists: new Map(), tree: null, el, renders: 0 };
  // The host nodes a list leaves behind. React (reconcileChildrenArray) walks the prefix whose keys match,
  // then looks the rest up in a map from key to old child; of old children with the same key the map
  // holds the last one only, and the others are neither reused nor removed from the page.
  function left(old, now) {
    if (new Set(old.keys).size === old.keys.length) return [];
    let i = 0; while (i < old.keys.length && i < now.length && old.keys[i] === now[i]) i++;
    if (i === now.length) return [];
    const last = new Map(); old.keys.forEach((k, j) => { if (j >= i) last.set(k, j); });
    return old.keys.flatMap((k, j) => (j >= i && last.get(k) !== j ? old.nodes[j] : []));
  }
  function renderList(list, path, seen) {
    const keys = list.map((c, i) => (c?.key != null ? "k" + c.key : i)), n = new Map();
    const nodes = list.map((c, i) => { const m = n.get(keys[i]) ?? 0; n.set(keys[i], m + 1); return render(c, path + "/" + keys[i] + (m ? "#" + m : ""), seen); });
    const old = root.lists.get(path), stale = old ? [...old.stale, ...left(old, keys)] : [];
    root.next.set(path, { keys, nodes, stale });
    return [...nodes.flat(), ...stale];
  }
  function render(node, path, seen) {
    if (node == null || typeof node === "boolean") return [];
    if (typeof node === "string" || typeof node === "number") return [String(node)];
    if (Array.isArray(node)) return renderList(node, path, seen);
    const { type, props } = node;
    if (type === Fragment) return render(props.children, path, seen);
    if (typeof type === "function") {
      const p = path + "<" + (type.name || "f") + ">";
      let inst = root.insts.get(p);
      if (!inst || inst.type !== type) { if (inst) unmount(inst); inst = { type, hooks: [], dead: false }; root.insts.set(p, inst); }
      seen.add(p);
      const old = current; current = { inst, i: 0, root };
      let out; try { out = type(props); } finally { current = old; }
      return render(out, p, seen);
    }
    const children = render(props.children, path + "<" + type + ">", seen);
    if (props.ref && typeof props.ref === "object") props.ref.current = props.ref.current ?? { click() {} };
    return [{ type, props, children }];
  }
  function unmount(inst) { inst.dead = true; for (const h of inst.hooks) { h?.un?.(); h?.cleanup?.(); if (h) h.cleanup = null; } }
  root.flush = () => {
    let n = 0;
    while (root.dirty) {
      if (++n > 60) throw new Error("the component tree re-renders without end");
      root.dirty = false; root.renders++;
      const seen = new Set();
      root.next = new Map();
      root.tree = render(root.el, "", seen);
      root.lists = root.next;
      for (const [p, inst] of [...root.insts]) if (!seen.has(p)) { unmount(inst); root.insts.delete(p); }
      for (const inst of root.insts.values())
        for (const h of inst.hooks) if (h?.pending) { const f = h.pending; h.pending = null; h.cleanup?.(); h.cleanup = f() ?? null; }
    }
  };
  root.view = () => { root.flush(); return root.tree; };
  root.unmount = () => { for (const i of root.insts.values()) unmount(i); root.insts.clear(); };
  root.find = (pred) => { const out = []; const go = (n) => { if (typeof n === "string") return; if (pred(n)) out.push(n); n.children.forEach(go); }; root.view().forEach(go); return out; };
  return root;
}
export const text = (n) => (typeof n === "string" ? n : n.children.map(text).join(""));
export default { createElement, Fragment, useState, useReducer, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useContext, createContext, memo, forwardRef, StrictMode, useSyncExternalStore };
