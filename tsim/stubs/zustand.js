// zustand's create(): a store read by components through a selector; a component renders again when what it selected changed.
import { $sim, useRef } from "react";
const mk = (f) => {
  let state;
  const subs = new Set();
  const users = new Set();
  const set = (p, replace) => {
    const n = typeof p === "function" ? p(state) : p;
    if (Object.is(n, state)) return;
    const prev = state;
    state = replace ? n : Object.assign({}, state, n);
    $sim.changed(users);
    for (const s of [...subs]) s(state, prev);
  };
  const get = () => state;
  const api = { setState: set, getState: get, getInitialState: () => first, subscribe: (s) => (subs.add(s), () => subs.delete(s)) };
  const first = (state = f(set, get, api));
  api.$use = (sel) => $sim.read(users, () => (sel ? sel(state) : state));
  return api;
};
export const createStore = (init) => (init ? mk(init) : mk);
export const useStore = (api, sel) => api.$use(sel);
export const create = (init) => {
  const hook = (f) => {
    const api = mk(f);
    return Object.assign((sel) => api.$use(sel), api);
  };
  return init ? hook(init) : hook;
};
const keys = (v) => (v && typeof v === "object" ? Object.keys(v) : null);
export const shallow = (a, b) => {
  if (Object.is(a, b)) return true;
  const k = keys(a), l = keys(b);
  return !!k && !!l && k.length === l.length && k.every((x) => Object.hasOwn(b, x) && Object.is(a[x], b[x]));
};
export const useShallow = (f) => {
  const last = useRef(undefined);
  return (s) => {
    const v = f(s);
    return shallow(last.current, v) ? last.current : (last.current = v);
  };
};
