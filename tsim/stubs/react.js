// A minimal React: function components, the hooks the UI uses, effects run after every commit, children first.
// As in React, a component renders again when its state or what it reads of a store changed or when its parent gave it
// new props; otherwise what it returned last stays.
const R = { root: null, cur: null, hook: 0, dirty: false, effects: [] };

export const Fragment = Symbol("Fragment");
export const StrictMode = Symbol("StrictMode");
export function createElement(type, props, ...children) {
  const p = { ...(props || {}) };
  const key = p.key === undefined ? null : String(p.key);
  delete p.key;
  if (children.length === 1) p.children = children[0];
  else if (children.length > 1) p.children = children;
  return { $el: true, type, key, props: p };
}
export function jsx(type, props, key) {
  const p = { ...props };
  if (p.key !== undefined && key === undefined) key = p.key;
  delete p.key;
  return { $el: true, type, key: key === undefined ? null : String(key), props: p };
}
export const jsxs = jsx;
export const jsxDEV = jsx;

function markDirty(inst) {
  inst.dirty = true;
  R.dirty = true;
}
function nextHook(make) {
  const c = R.cur;
  if (!c) throw new Error("hook called outside a component");
  const i = R.hook++;
  if (i >= c.hooks.length) c.hooks.push(make(c));
  return c.hooks[i];
}
function same(a, b) {
  if (!a || !b || a.length !== b.length) return false;
  return a.every((v, i) => Object.is(v, b[i]));
}
export function useState(init) {
  const h = nextHook((inst) => {
    const s = { v: typeof init === "function" ? init() : init };
    s.set = (v) => {
      const n = typeof v === "function" ? v(s.v) : v;
      if (!Object.is(n, s.v)) {
        s.v = n;
        markDirty(inst);
      }
    };
    return s;
  });
  return [h.v, h.set];
}
export function useReducer(reducer, init, initFn) {
  const h = nextHook((inst) => {
    const s = { v: initFn ? initFn(init) : init, reducer };
    s.dispatch = (a) => {
      const n = s.reducer(s.v, a);
      if (!Object.is(n, s.v)) {
        s.v = n;
        markDirty(inst);
      }
    };
    return s;
  });
  h.reducer = reducer;
  return [h.v, h.dispatch];
}
export function useRef(init) {
  return nextHook(() => ({ current: init }));
}
export function useMemo(fn, deps) {
  const h = nextHook(() => ({ v: undefined, deps: null, set: false }));
  if (!h.set || !same(h.deps, deps)) {
    h.v = fn();
    h.deps = deps;
    h.set = true;
  }
  return h.v;
}
export const useCallback = (fn, deps) => useMemo(() => fn, deps);
export function useEffect(fn, deps) {
  const h = nextHook(() => ({ effect: true, deps: null, cleanup: null, ran: false }));
  if (!h.ran || deps === undefined || !same(h.deps, deps)) {
    R.cur.todo.push({ h, fn });
    h.deps = deps;
    h.ran = true;
  }
}
export const useLayoutEffect = useEffect;
export const useInsertionEffect = useEffect;
export function useId() {
  return nextHook(() => ({ id: ":r" + Math.trunc(performance.now()) + ":" })).id;
}
export function useSyncExternalStore(subscribe, getSnapshot) {
  const h = nextHook((inst) => ({ inst, get: null, v: undefined }));
  h.get = getSnapshot;
  h.v = getSnapshot();
  const check = () => {
    if (!Object.is(h.get(), h.v)) markDirty(h.inst);
  };
  useEffect(() => {
    check();
    return subscribe(check);
  }, [subscribe]);
  return h.v;
}
export const useDeferredValue = (v) => v;
export const useTransition = () => [false, (f) => f()];
export const startTransition = (f) => f();
export function createContext(v) {
  const ctx = { $ctx: true, v, users: new Set() };
  ctx.Provider = { $provider: ctx };
  return ctx;
}
export function useContext(ctx) {
  ctx.users.add(R.cur);
  return ctx.v;
}
const shallowEqual = (a, b) => {
  const k = Object.keys(a);
  return k.length === Object.keys(b).length && k.every((x) => Object.hasOwn(b, x) && Object.is(a[x], b[x]));
};
export const memo = (c, equal) => ({ $memo: c, equal: equal || shallowEqual });
export const forwardRef = (f) => (p) => f(p, p.ref ?? null);
export const lazy = () => {
  throw new Error("lazy components are not simulated");
};
export const Children = { map: (c, f) => (Array.isArray(c) ? c.map(f) : c == null ? c : [f(c, 0)]), toArray: (c) => (Array.isArray(c) ? c : c == null ? [] : [c]) };

function unmount(inst) {
  if (!inst) return;
  inst.gone = true;
  if (inst.kids) for (const k of inst.kids.values()) unmount(k);
  if (inst.hooks)
    for (const h of inst.hooks)
      if (h.effect && h.cleanup) {
        const c = h.cleanup;
        h.cleanup = null;
        c();
      }
}

function callable(t) {
  while (t.$memo) t = t.$memo;
  return t;
}

// Renders `node` as the children of `parent`; instances are matched by position or key and type.
function renderInto(parent, node, path, seen, out) {
  if (node == null || node === false || node === true) return;
  if (Array.isArray(node)) {
    node.forEach((n, i) => {
      const k = n && n.$el && n.key != null ? "k" + n.key : "i" + i;
      renderInto(parent, n, path + "/" + k, seen, out);
    });
    return;
  }
  if (!node.$el) {
    out.push(String(node));
    return;
  }
  const key = path + (node.key != null ? "#" + node.key : "");
  const t = node.type;
  let inst = parent.kids.get(key);
  if (inst && inst.type !== t) {
    unmount(inst);
    parent.kids.delete(key);
    inst = null;
  }
  if (!inst) {
    inst = { type: t, hooks: [], kids: new Map(), props: null, res: null, dirty: true, todo: [] };
    parent.kids.set(key, inst);
  }
  seen.add(key);
  const mine = new Set();
  if (typeof t === "function" || (t && t.$memo)) {
    const props = inst.props;
    const kept = props && !inst.dirty && (props === node.props || (t.$memo && t.equal(props, node.props)));
    if (!kept) {
      const pc = R.cur, ph = R.hook;
      R.cur = inst;
      R.hook = 0;
      inst.dirty = false;
      inst.props = node.props;
      try {
        inst.res = callable(t)(node.props);
      } finally {
        R.cur = pc;
        R.hook = ph;
      }
    }
    renderInto(inst, inst.res, "0", mine, out);
    R.effects.push(...inst.todo.splice(0));
  } else if (t === Fragment || t === StrictMode) {
    renderInto(inst, node.props.children, "0", mine, out);
  } else if (t && t.$provider) {
    if (!Object.is(t.$provider.v, node.props.value)) for (const i of t.$provider.users) i.dirty = true;
    t.$provider.v = node.props.value;
    renderInto(inst, node.props.children, "0", mine, out);
  } else {
    const el = { tag: t, props: node.props, kids: [] };
    if (node.props.ref && typeof node.props.ref === "object") node.props.ref.current = { click() {}, focus() {}, style: {}, value: "" };
    renderInto(inst, node.props.children, "0", mine, el.kids);
    out.push(el);
  }
  for (const [k, v] of inst.kids)
    if (!mine.has(k)) {
      unmount(v);
      inst.kids.delete(k);
    }
}

// Commits until nothing changes any more; returns the host tree.
function flush() {
  for (let n = 0; ; n++) {
    if (n > 50) throw new Error("Maximum update depth exceeded");
    if (!R.dirty) return;
    R.dirty = false;
    const out = [];
    const seen = new Set();
    renderInto(R.root, R.element, "r", seen, out);
    for (const [k, v] of R.root.kids)
      if (!seen.has(k)) {
        unmount(v);
        R.root.kids.delete(k);
      }
    R.tree = out;
    const eff = R.effects;
    R.effects = [];
    for (const { h } of eff)
      if (h.cleanup) {
        const c = h.cleanup;
        h.cleanup = null;
        c();
      }
    for (const { h, fn } of eff) {
      const c = fn();
      h.cleanup = typeof c === "function" ? c : null;
    }
  }
}

export const $sim = {
  mount(element) {
    R.root = { kids: new Map() };
    R.element = element;
    R.dirty = true;
    flush();
  },
  // A store hook: `get` reads what the component uses of the store.
  read(users, get) {
    const h = nextHook((inst) => ({ inst, get: null, v: undefined }));
    users.add(h);
    h.get = get;
    return (h.v = get());
  },
  changed(users) {
    for (const h of users) {
      if (h.inst.gone) users.delete(h);
      else if (!Object.is(h.get(), h.v)) markDirty(h.inst);
    }
  },
  flush,
  tree: () => R.tree,
};

export default {
  Fragment, StrictMode, createElement, useState, useReducer, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useInsertionEffect, useId,
  useSyncExternalStore, useDeferredValue, useTransition, startTransition, createContext, useContext, memo, forwardRef, lazy, Children,
};
