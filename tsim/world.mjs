// The simulated browser: one page realm, any number of worker realms, message queues between them, timers, a
// virtual clock and the stand-in for the WebAssembly search. Every order, delay and fault is a recorded choice.
import { AsyncLocalStorage } from "node:async_hooks";
import { createHash } from "node:crypto";
import * as B from "./build/bundles.mjs";
import { readCsv, split } from "./data.mjs";

export class Rng {
  constructor(seed) {
    this.s = BigInt.asUintN(64, BigInt(seed) * 0x9e3779b97f4a7c15n + 0x1234567n);
  }
  next() {
    this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n);
    let z = this.s;
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
    return Number((z ^ (z >> 31n)) >> 11n) / 2 ** 53;
  }
  int(n) {
    return Math.floor(this.next() * n);
  }
  pick(a) {
    return a[this.int(a.length)];
  }
  chance(p) {
    return this.next() < p;
  }
}

const als = new AsyncLocalStorage();
const NAMES = ["self", "globalThis", "window", "postMessage", "addEventListener", "removeEventListener", "close", "setTimeout", "clearTimeout", "setInterval", "clearInterval",
  "setImmediate", "requestAnimationFrame", "cancelAnimationFrame", "performance", "Date", "Math", "MessageChannel", "Worker", "SharedArrayBuffer", "crossOriginIsolated", "crypto",
  "navigator", "location", "console", "document", "scheduler", "process", "require", "structuredClone", "reportError", "__wasm"];
const compile = (code) => new Function(...NAMES, code + "\nreturn typeof __out === 'undefined' ? undefined : __out;");
const CODE = { worker: compile(B.worker), client: compile(B.client), ui: compile(B.ui) };

// The current world: unhandled rejections are attributed to it (runs are executed one after another).
let CUR = null;
process.on("unhandledRejection", (e) => CUR && CUR.uncaught(als.getStore()?.realm ?? null, "rejection", e));

class Realm {
  constructor(w, name) {
    this.w = w;
    this.name = name;
    this.inbox = [];
    this.timers = [];
    this.nextTimer = 1;
    this.dead = false;
    this.listeners = [];
    this.jump = 0;
  }
  env(extra) {
    const w = this.w, r = this;
    const add = (f, d, a, every) => {
      const t = { id: r.nextTimer++, due: w.now + Math.max(0, Number(d) || 0), f: AsyncLocalStorage.bind(() => f(...a)), every: every ? Math.max(1, Number(d) || 0) : 0 };
      r.timers.push(t);
      return t.id;
    };
    const del = (id) => {
      r.timers = r.timers.filter((t) => t.id !== id);
    };
    const SimDate = class extends Date {
      constructor(...a) {
        a.length ? super(...a) : super(w.now + 1.7e12 + r.jump);
      }
      static now() {
        return w.now + 1.7e12 + r.jump;
      }
    };
    const SimMath = {};
    for (const k of Object.getOwnPropertyNames(Math)) SimMath[k] = Math[k];
    SimMath.random = () => w.rng.next();
    class SimChannel {
      constructor() {
        const mk = () => ({ onmessage: null, ls: [], addEventListener(t, f) { this.ls.push(f); }, start() {}, close() {} });
        this.port1 = mk();
        this.port2 = mk();
        const link = (a, b) => (a.postMessage = (m) => add(() => { const e = { data: m }; b.onmessage?.(e); for (const l of b.ls) l(e); }, 0, []));
        link(this.port1, this.port2);
        link(this.port2, this.port1);
      }
    }
    const say = (...a) => w.log({ k: "console", r: r.name });
    const e = {
      setTimeout: (f, d, ...a) => add(f, d, a), clearTimeout: del, setInterval: (f, d, ...a) => add(f, d, a, true), clearInterval: del,
      setImmediate: undefined, requestAnimationFrame: (f) => add(() => f(w.now), 16, []), cancelAnimationFrame: del,
      performance: { now: () => w.now, mark() {}, measure() {}, timeOrigin: 0 }, Date: SimDate, Math: SimMath, MessageChannel: SimChannel,
      SharedArrayBuffer: w.cfg.shared ? SharedArrayBuffer : undefined, crossOriginIsolated: Boolean(w.cfg.isolated),
      crypto: { randomUUID: () => { const h = () => Math.floor(w.rng.next() * 65536).toString(16).padStart(4, "0"); return `${h()}${h()}-${h()}-4${h().slice(1)}-8${h().slice(1)}-${h()}${h()}${h()}`; } },
      navigator: { hardwareConcurrency: w.cfg.cores, clipboard: { writeText: async () => {} }, userAgent: "sim" },
      location: { href: "http://sim/" }, console: { log: say, warn: say, error: say, info: say, debug: say },
      document: undefined, scheduler: undefined, process: undefined, require: undefined, structuredClone,
      reportError: (x) => w.uncaught(r.name, "reported", x), Worker: undefined, close: undefined, window: undefined,
      postMessage: undefined, addEventListener: undefined, removeEventListener: undefined, ...extra,
    };
    const self = e.self ?? {};
    for (const n of NAMES) if (n !== "self" && n !== "globalThis" && n !== "__wasm" && !(n in self) && e[n] !== undefined) self[n] = e[n];
    e.self = self;
    e.globalThis = self;
    return NAMES.map((n) => e[n]);
  }
  // the earliest timer
  timer() {
    let b = null;
    for (const t of this.timers) if (!b || t.due < b.due || (t.due === b.due && t.id < b.id)) b = t;
    return b;
  }
}

export class World {
  constructor(cfg, choices) {
    this.cfg = cfg;
    this.rng = new Rng(cfg.seed);
    this.crng = new Rng(cfg.seed + 0.5 * 2);
    this.replay = choices ?? null;
    this.made = [];
    this.n = 0;
    this.now = 1000;
    this.events = [];
    this.hash = createHash("md5");
    this.shash = createHash("md5");
    this.probes = {};
    this.turns = 0;
    this.chain = 0;
    this.insts = [];
    this.pending = [];
    this.workers = [];
    this.faults = true;
    this.wasmLoaded = false;
    this.poolUp = false;
    this.inits = 0;
    this.uiPosts = [];
    this.uiRealm = new Realm(this, "ui");
    this.finite = false;
    this.stepsByTurn = 0;
    this.viol = null;
    this.on = null;
    CUR = this;
  }

  fail(cls, msg) {
    if (!this.viol) this.viol = { class: cls, msg };
  }
  probe(k, n = 1) {
    this.probes[k] = (this.probes[k] ?? 0) + n;
  }
  // A choice among n; 0 is the ordinary one.
  choose(n, weights) {
    if (n < 2) return 0;
    const i = this.n++;
    let c;
    if (this.replay) c = Math.min(this.replay.get(i) ?? 0, n - 1);
    else if (weights) {
      let s = 0;
      for (const x of weights) s += x;
      let x = this.crng.next() * s;
      c = 0;
      while (c < n - 1 && (x -= weights[c]) >= 0) c++;
    } else c = this.crng.next() < this.cfg.calm ? 0 : this.crng.int(n);
    if (c) this.made.push([i, c]);
    this.shash.update(`${n}.${c},`);
    return c;
  }
  // does an injected fault of this kind happen now?
  fault(kind) {
    const p = this.cfg.faults[kind] ?? 0;
    if (!this.faults || p <= 0) return false;
    const hit = this.choose(2, [1 - p, p]) === 1;
    if (hit) this.probe(kind);
    return hit;
  }
  log(e) {
    e.t = this.turns;
    const st = als.getStore();
    if (st && e.c === undefined) e.c = st.chain;
    this.events.push(e);
    this.hash.update(JSON.stringify(e));
    if (this.on) this.on(e);
    return e;
  }
  uncaught(realm, how, e) {
    this.log({ k: "uncaught", r: realm ?? "?", how, msg: String(e && e.message ? e.message : e) });
  }

  // ---- the WebAssembly package of one realm
  wasm(realm) {
    const w = this;
    const call = (inst, fn, arg) => w.log({ k: "call", r: realm.name, i: inst.id, fn, arg });
    const boom = (inst, fn) => {
      if (inst.freed) throw w.thrown(realm, "null pointer passed to rust");
      if (inst.broken) throw w.thrown(realm, "RuntimeError: unreachable", inst);
      if (w.fault("engine_panics")) {
        inst.broken = true;
        throw w.thrown(realm, "RuntimeError: unreachable", inst);
      }
      if (w.fault("engine_errors")) throw w.thrown(realm, fn + " failed", inst);
    };
    class WasmSearch {
      constructor(csv, options, unary, binary, ternary) {
        const i = { id: w.insts.length + 1, chain: als.getStore()?.chain ?? 0, cycles: 0, total: Number(options?.niterations ?? 0), realm: realm.name, freed: false, broken: false, post: als.getStore()?.post ?? null };
        w.log({ k: "new", r: realm.name, i: i.id, total: i.total });
        if (w.fault("constructor_failures")) throw w.thrown(realm, "no numeric data rows parsed");
        i.split = { train: [0, 1, 2], val: w.cfg.val ? [3] : [] };
        if (w.cfg.page) {
          i.data = readCsv(csv, options);
          if (i.data.error) throw w.thrown(realm, i.data.error);
          i.split = split(i.data.rows.length, options.validation_fraction, w.rng);
        }
        w.insts.push(i);
        this.$i = i;
      }
      set_pareto_k(k) {
        boom(this.$i, "set_pareto_k");
        this.$i.k = k;
      }
      get_split_indices() {
        boom(this.$i, "get_split_indices");
        return { train: [...this.$i.split.train], val: [...this.$i.split.val] };
      }
      is_finished() {
        boom(this.$i, "is_finished");
        call(this.$i, "is_finished", this.fin());
        return this.fin();
      }
      fin() {
        return this.$i.cycles >= this.$i.total;
      }
      step(n) {
        const i = this.$i;
        boom(i, "step");
        const todo = Math.max(0, Math.min(Number(n) | 0, i.total - i.cycles));
        i.cycles += todo;
        if (n > 0) w.stepsByTurn = w.turns;
        call(i, "step", Number(n) | 0);
        if (n > 0) {
          const d = [0, 1, 30, 120, 300, 2000][w.choose(6, w.cfg.stepw)];
          if (d >= 300) w.probe("slow_steps");
          w.now += d || 0.2;
          if (++w.turnSteps > 5000 || (w.now - w.turnAt > 2000 && ++w.lateSteps > 10 && als.getStore()?.post?.m.type !== "step")) {
            w.fail("never-yields", `${w.turnSteps} calls of step in one turn of the worker (${Math.round(w.now - w.turnAt)} ms): no pause, reset or request can reach it`);
            w.lateSteps = w.turnSteps = -1e9;
            i.total = i.cycles;
            throw w.thrown(realm, "stopped", i);
          }
        }
        return snap(i);
      }
      best_equations(k) {
        boom(this.$i, "best_equations");
        call(this.$i, "best_equations", k);
        return front(this.$i);
      }
      evaluate_member(id, which) {
        const i = this.$i;
        if (i.freed || i.broken) boom(i, "evaluate_member");
        call(i, "evaluate_member", `${id}:${which}`);
        const m = front(i).find((x) => x.id === id);
        if (!m) throw w.thrown(realm, "member not found", i);
        if (which !== "train" && which !== "val") throw w.thrown(realm, 'which must be "train" or "val"', i);
        if (which === "val" && !i.split.val.length) throw w.thrown(realm, "no validation dataset", i);
        if (w.fault("evaluation_errors")) throw w.thrown(realm, "evaluation failed", i);
        const v = i.id * 100000 + Number(id) * 10 + (which === "val" ? 1 : 0);
        // what tells one evaluation from another is spread over the metrics, as numbers of few digits that the page shows in full
        const tag = { rmse: i.id, mae: Number(id), r2: which === "val" ? 1 : 0, max_abs_err: 3 + (v % 89), mse: 100 + (v % 83), corr: 200 + (v % 79), min_abs_err: 300 + (v % 73) };
        return { metrics: { n: i.split[which].length, ...tag }, yhat: i.split[which].map((r) => v + r / 1000) };
      }
      free() {
        this.$i.freed = true;
      }
    }
    const point = (i, j) => ({ id: memberId(i, j), complexity: 1 + 2 * j, loss: 1 / (1 + j + i.cycles), cost: 1 / (1 + j + i.cycles) });
    const memberId = (i, j) => String(7 + j + 3 * (Math.floor(i.cycles / 20) % 4));
    const eq = (i, j) => ({ ...point(i, j), equation: `i${i.id}c${i.cycles}m${memberId(i, j)}` });
    const front = (i) => Array.from({ length: 1 + (Math.floor(i.cycles / 10) % 3) }, (_, j) => eq(i, j));
    const snap = (i) => ({ total_cycles: i.total, cycles_completed: i.cycles, total_evals: i.id * 1e6 + (i.cycles % 1e6), best: eq(i, 0), pareto_points: front(i).map(({ equation, ...p }) => p) });
    return {
      WasmSearch,
      init: () => {
        w.log({ k: "init()", r: realm.name });
        const loaded = realm.loaded;
        if (loaded && w.choose(4, [3, 1, 0, 0]) === 0) return Promise.resolve(loaded);
        if (w.inits++ > 0) w.probe("slow_inits");
        return new Promise((res, rej) => {
          w.pending.push({
            realm, what: "init", go: () => {
              if (realm.name !== "ui" && w.fault("init_failures")) return rej(w.thrown(realm, "failed to fetch wasm", null));
              realm.loaded = { memory: { buffer: w.cfg.shared && w.cfg.sharedmem ? new SharedArrayBuffer(8) : new ArrayBuffer(8) } };
              res(realm.loaded);
            },
          });
        });
      },
      initSync: () => (realm.loaded = { memory: { buffer: new ArrayBuffer(8) } }),
      init_thread_pool: (n) => {
        w.log({ k: "pool", r: realm.name, n });
        return new Promise((res, rej) => {
          w.pending.push({
            realm, what: "pool", go: () => {
              if (realm.pool) return rej(new Error("The global thread pool has already been initialized."));
              if (w.fault("worker_errors")) return rej(new Error("worker spawn failed"));
              realm.pool = true;
              res();
            },
          });
        });
      },
      builtin_operator_registry: () => ["abs", "cos", "cosh", "exp", "exp2", "log", "log2", "neg", "sin", "sinh", "sqrt"].map((name) => ({ arity: 1, name, display: name, infix: null, commutative: false, associative: false, complexity: 1 })).concat(
        ["add", "sub", "mul", "div", "max", "min", "pow"].map((name) => ({ arity: 2, name, display: { add: "+", sub: "-", mul: "*", div: "/" }[name] ?? name, infix: null, commutative: false, associative: false, complexity: 1 }))),
      default_search_options: () => ({ has_headers: true, x_columns: null, y_column: null, weights_column: null, validation_fraction: w.cfg.val ? 0.25 : 0, loss_kind: "mse", huber_delta: 1 }),
      default_core_options: () => ({ seed: 0, niterations: w.cfg.total, populations: 31, population_size: 27, ncycles_per_iteration: 380, maxsize: 30, maxdepth: 30, warmup_maxsize_by: 0, parsimony: 0, adaptive_parsimony_scaling: 1040,
        crossover_probability: 0.0259, perturbation_factor: 0.129, probability_negate_constant: 0.00743, tournament_selection_n: 15, tournament_selection_p: 0.982, alpha: 3.17, optimizer_nrestarts: 2, optimizer_probability: 0.14,
        optimizer_iterations: 8, optimizer_f_calls_limit: 10000, fraction_replaced: 0.00036, fraction_replaced_hof: 0.0614, fraction_replaced_guesses: 0.001, topn: 12, use_frequency: true, use_frequency_in_tournament: true,
        skip_mutation_failures: true, annealing: true, should_optimize_constants: true, migration: true, hof_migration: true, use_baseline: true, progress: false, should_simplify: false, batching: false, batch_size: 50,
        mutation_weights: { mutate_constant: 0.0346, mutate_operator: 0.293, mutate_feature: 0.1, swap_operands: 0.198, rotate_tree: 4.26, add_node: 2.47, insert_node: 0.0112, delete_node: 0.87, simplify: 0.00209, randomize: 0.000502, do_nothing: 0.273, optimize: 0, form_connection: 0.5, break_connection: 0.1 } }),
    };
  }
  thrown(realm, msg, inst) {
    this.log({ k: "throw", r: realm.name, msg, i: inst ? inst.id : 0 });
    return msg.startsWith("Runtime") ? new Error(msg) : msg;
  }

  // ---- realms
  startWorker(realm, scope) {
    const w = this;
    const self = {
      onmessage: null,
      postMessage: (m) => {
        const d = structuredClone(m);
        const st = als.getStore();
        w.log({ k: "post", r: realm.name, m: d });
        if (!realm.dead) realm.out.push({ m: d, c: st?.chain ?? 0, up: st?.post ?? null });
      },
      addEventListener: (t, f) => realm.listeners.push([t, f]),
      removeEventListener: (t, f) => (realm.listeners = realm.listeners.filter((l) => l[1] !== f)),
      close: () => (realm.dead = true),
    };
    realm.self = self;
    CODE.worker(...realm.env({ self, postMessage: self.postMessage, addEventListener: self.addEventListener, removeEventListener: self.removeEventListener, close: self.close, __wasm: this.wasm(realm) }));
  }
  workerClass() {
    const w = this;
    return class Worker {
      constructor() {
        const realm = new Realm(w, "w" + (w.workers.length + 1));
        realm.out = [];
        realm.host = this;
        realm.up = false;
        w.workers.push(realm);
        this.$r = realm;
        this.onmessage = null;
        this.onerror = null;
        this.ls = [];
        w.log({ k: "spawn", r: realm.name });
      }
      postMessage(m) {
        const d = structuredClone(m);
        const p = { n: w.uiPosts.length + 1, m: d, r: this.$r.name };
        w.uiPosts.push(p);
        w.log({ k: "send", r: this.$r.name, n: p.n, m: d });
        if (!this.$r.dead && !this.$r.failed) this.$r.inbox.push(p);
      }
      addEventListener(t, f) {
        this.ls.push([t, f]);
      }
      removeEventListener(t, f) {
        this.ls = this.ls.filter((l) => l[1] !== f);
      }
      terminate() {
        this.$r.dead = true;
        this.$r.inbox.length = 0;
        this.$r.out.length = 0;
        this.$r.timers = [];
        w.pending = w.pending.filter((p) => p.realm !== this.$r);
        w.log({ k: "terminate", r: this.$r.name });
      }
    };
  }
  load(what) {
    const r = this.uiRealm;
    const win = { matchMedia: () => ({ matches: false, addEventListener() {}, removeEventListener() {} }), addEventListener() {}, removeEventListener() {} };
    return CODE[what](...r.env({ self: win, window: win, Worker: this.workerClass(), __wasm: this.wasm(r) }));
  }

  // ---- one turn of the simulated machine
  options(actions) {
    const o = [];
    const c = this.cfg.weights;
    const live = this.workers.filter((r) => !r.dead);
    for (const r of live) if (!r.up) o.push({ k: "up", w: c.up, run: () => this.turn(r, () => this.bringUp(r)) });
    for (const r of live) if (r.up && !r.failed && r.inbox.length) o.push({ k: "in", w: c.in, run: () => this.deliver(r) });
    for (const r of live) if (r.out.length) o.push({ k: "out", w: c.out, run: () => this.deliverUi(r) });
    for (const p of this.pending) o.push({ k: "settle", w: c.settle, run: () => { this.pending.splice(this.pending.indexOf(p), 1); return this.turn(p.realm, p.go); } });
    if (actions) o.push({ k: "act", w: c.act, run: actions });
    for (const r of [...live, this.uiRealm]) {
      const t = r.timer();
      if (t) o.push({ k: r === this.uiRealm ? "uitick" : "tick", w: c.tick, run: () => this.tick(r, t) });
    }
    return o;
  }
  // The worker's script is fetched and run, or that fails: an "error" event, and the worker never handles a message.
  bringUp(r) {
    r.up = true;
    if (this.fault("load_failures")) {
      r.failed = true;
      r.inbox.length = 0;
      this.log({ k: "loadfail", r: r.name });
      r.out.push({ err: "Failed to fetch a worker script" });
      return;
    }
    this.startWorker(r);
  }
  async turn(realm, f) {
    this.turns++;
    this.now += [0, 1, 7, 60, 260][this.choose(5, this.cfg.timew)];
    if (this.fault("clock_jump")) {
      realm.jump += (this.choose(2) ? -1 : 1) * 3_600_000;
      this.now += 400_000;
    }
    this.turnAt = this.now;
    this.turnSteps = this.lateSteps = 0;
    try {
      f();
    } catch (e) {
      this.uncaught(realm.name, "exception", e);
    }
    await new Promise((r) => setImmediate(r));
    if (this.afterTurn) this.afterTurn(realm);
  }
  deliver(r) {
    const p = r.inbox.shift();
    const chain = ++this.chain;
    const ev = { data: structuredClone(p.m) };
    return this.turn(r, () =>
      als.run({ chain, realm: r.name, post: p }, () => {
        this.log({ k: "deliver", r: r.name, n: p.n, m: p.m });
        for (const [t, f] of r.listeners) if (t === "message") f(ev);
        r.self.onmessage?.(ev);
      }));
  }
  tick(r, t) {
    if (t.every) t.due += t.every;
    else r.timers = r.timers.filter((x) => x !== t);
    this.now = Math.max(this.now, t.due);
    return this.turn(r, t.f);
  }
  deliverUi(r) {
    const { m, c, up, err } = r.out.shift();
    if (err)
      return this.turn(this.uiRealm, () => {
        const ev = { type: "error", message: err, preventDefault() {} };
        this.log({ k: "workererror", r: r.name });
        for (const [t, f] of r.host.ls) if (t === "error") f(ev);
        r.host.onerror?.(ev);
      });
    const ev = { data: structuredClone(m) };
    return this.turn(this.uiRealm, () => {
      this.log({ k: "arrive", r: r.name, m, c });
      this.arrived = { m, c, up, r: r.name };
      for (const [t, f] of r.host.ls) if (t === "message") f(ev);
      r.host.onmessage?.(ev);
    });
  }
  // One turn chosen by the scheduler; false when there is nothing left to do.
  async next(actions) {
    const o = this.options(actions);
    if (!o.length) return false;
    const c = this.choose(o.length, o.map((x) => x.w));
    await o[c].run();
    return true;
  }
  // Everything deliverable is delivered in the plain order; timers and actions wait.
  async drain(max = 20000) {
    for (let i = 0; i < max; i++) {
      const o = this.options(null).filter((x) => x.k !== "tick" && x.k !== "uitick");
      if (!o.length) return true;
      await o[0].run();
    }
    return false;
  }
  inFlight() {
    return this.pending.length || this.workers.some((r) => !r.dead && (!r.up || (r.inbox.length && !r.failed) || r.out.length));
  }
}

// Which evaluation metrics are those of: search, member, set.
export const tagOf = (m) => m.rmse * 100000 + m.mae * 10 + m.r2;
