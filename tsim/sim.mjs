// sim.mjs batch PROP FIRST STRIDE SECS MAX      one JSON line per seed
// sim.mjs one PROP SEED [file]                  one run; the file holds {config, choices} of a replay
import { readFileSync } from "node:fs";
import { World, Rng } from "./world.mjs";
import { Judge } from "./oracle.mjs";
import { uiRun } from "./ui.mjs";
import { makeCsvs } from "./data.mjs";

const PAGE = ["C21", "C28", "C29", "C32"];

function config(prop, seed) {
  const r = new Rng(seed * 8 + 3);
  const lvl = () => r.pick([1, 1, 1, 0.3, 0.1, 0.03, 4]);
  const rate = (p, ...v) => (r.chance(p) ? r.pick(v) : 0);
  const cfg = {
    seed, calm: r.pick([0, 0.5, 0.8]), cores: r.pick([1, 2, 4, 64]),
    shared: r.chance(0.7), isolated: r.chance(0.7), sharedmem: r.chance(0.8), val: r.chance(0.6),
    weights: { up: lvl(), in: lvl(), out: lvl(), settle: lvl(), act: r.pick([0.05, 0.2, 1, 3]), tick: lvl() },
    stepw: r.pick([[1, 0, 0, 0, 0, 0], [1, 1, 1, 1, 1, 0.2], [1, 3, 3, 0, 0, 0], [0.1, 0, 0, 1, 1, 0.3]]),
    timew: r.pick([[1, 0, 0, 0, 0], [1, 2, 1, 0.3, 0.1], [0.2, 0.5, 1, 1, 1]]),
    total: r.pick([1, 9, 10, 30, 80, 200]),
    faults: {
      engine_panics: 0, engine_errors: 0, constructor_failures: 0, init_failures: 0, worker_errors: rate(0.3, 0.5, 1), evaluation_errors: 0, clock_jump: rate(0.3, 0.02, 0.2),
    },
    plan: [],
  };
  const faulty = prop === "C20" ? 0.75 : 0.35;
  if (r.chance(faulty)) {
    cfg.faults.engine_panics = rate(0.4, 0.01, 0.05, 0.2);
    cfg.faults.engine_errors = rate(0.6, 0.01, 0.05, 0.3);
    cfg.faults.constructor_failures = rate(0.3, 0.2, 0.6);
    cfg.faults.init_failures = rate(0.3, 0.2, 0.7);
    cfg.faults.evaluation_errors = rate(0.3, 0.2, 0.7);
    cfg.faults.load_failures = new Rng(seed * 8 + 5).chance(0.25) ? 0.6 : 0;
  }
  if (PAGE.includes(prop)) {
    const d = new Rng(seed * 8 + 6);
    cfg.page = true;
    cfg.csvs = makeCsvs(d);
    const cols = d.pick([2, 2, 3, 4]);
    const lines = [Array.from({ length: cols }, (_, j) => "z" + j)], same = d.chance(0.4) ? d.int(cols) : -1;
    for (let i = 0, n = 1 + d.int(prop === "C28" ? 8 : 3); i < n; i++) lines.push(Array.from({ length: cols }, (_, j) => (900 + (j === same ? i % 2 : ((i * 7) % 11)) + j * 0.1).toFixed(1)));
    cfg.last = lines.map((l) => l.join(",") + "\n").join("");
    const edits = prop === "C21" ? d.pick([0, 0, 0.15]) : prop === "C32" ? d.pick([0.4, 0.6]) : d.pick([0.2, 0.4]);
    const sets = prop === "C29" ? 0.35 : 0;
    const kinds = ["text", "text", "file", "parse", "headers", "y", "w", "x", "x", "fraction"];
    if (prop === "C32") kinds.push("inspect", "inspect", "parse", "file");
    const more = () => {
      const back = d.chance(0.7);
      if (prop === "C28" && d.chance(0.4)) cfg.plan.push({ a: "tab", k: 0 }, { a: "pause" }, { a: "wait", k: 5 + d.int(25) }, { a: "row", k: d.int(4) }, { a: "wait", k: 5 + d.int(25) });
      while (d.chance(edits)) cfg.plan.push({ a: "edit", what: d.pick(kinds), k: d.int(60), parse: d.chance(0.6), back });
      while (d.chance(sets)) cfg.plan.push({ a: "set", k: d.int(60), v: d.int(60), back });
    };
    if (prop === "C28" && d.chance(0.7)) cfg.plan.push({ a: "edit", what: "text", k: d.int(60), parse: true, back: true });
    const n = 3 + r.int(14);
    for (let i = 0; i < n; i++) {
      const x = r.next();
      if (i === 0 && x < 0.9) cfg.plan.push({ a: "init" });
      else if (i === 1 && x < 0.7) cfg.plan.push({ a: "start" });
      else if (x < 0.17) cfg.plan.push({ a: "init" });
      else if (x < 0.37) cfg.plan.push({ a: "start" });
      else if (x < 0.53) cfg.plan.push({ a: "pause" });
      else if (x < 0.63) cfg.plan.push({ a: "reset" });
      else if (x < 0.8) cfg.plan.push({ a: r.chance(0.7) ? "row" : "point", k: r.int(4) });
      else if (x < 0.9) cfg.plan.push({ a: "tab", k: r.int(3) });
      else if (x < 0.93) cfg.plan.push({ a: "iters", k: r.pick([0, 1, 40, 300]) });
      else cfg.plan.push({ a: "wait", k: 1 + r.int(30) });
      more();
      if (r.chance(0.25)) cfg.plan.push({ ...cfg.plan[cfg.plan.length - 1] });
    }
    cfg.total = r.pick([5, 30, 120, 1e9, 1e9]);
    cfg.wasmFail = r.chance(0.02);
  } else {
    const n = 2 + r.int(16);
    for (let i = 0; i < n; i++) {
      const x = r.next();
      const total = r.pick([0, 5, 10, 40, 120, 300]);
      if (i === 0 && x < 0.85) cfg.plan.push({ a: "init", total });
      else if (i === 1 && x < 0.6) cfg.plan.push({ a: "start" });
      else if (x < 0.16) cfg.plan.push({ a: "init", total });
      else if (x < 0.4) cfg.plan.push({ a: "start" });
      else if (x < 0.6) cfg.plan.push({ a: "pause" });
      else if (x < 0.7) cfg.plan.push({ a: "reset" });
      else if (x < 0.78) cfg.plan.push({ a: "step", k: r.pick([0, 1, 10, 1000, -3]) });
      else if (x < 0.9) cfg.plan.push({ a: "evaluate", id: String(r.pick([7, 8, 9, 10, 13, 99])), which: r.chance(0.7) ? "train" : "val" });
      else cfg.plan.push({ a: "wait", k: 1 + r.int(40) });
    }
  }
  return cfg;
}

// C19 and C20: the real worker client posts a plan of messages to the real worker.
async function workerRun(prop, cfg, w) {
  const judge = new Judge(prop, (c, m) => w.fail(c, m));
  w.on = (e) => judge.on(e);
  const { SrWorkerClient } = w.load("client");
  const got = [];
  const client = new SrWorkerClient();
  const note = (type) => (...a) => got.push({ type, a, at: w.uiPosts.length, r: w.arrived?.r });
  const asked = []; // every request made of the client, with how many messages had come by then
  client.setHandlers({ onReady: note("ready"), onSnapshot: note("snapshot"), onFrontUpdate: note("front"), onEvalResult: note("eval"), onDone: note("done"), onPaused: note("paused"), onResetDone: note("reset"), onError: note("error") });
  let req = 0;
  const act = (p) => {
    asked.push({ a: p.a, at: got.length, id: p.a === "evaluate" ? `r${req + 1}:${p.id}:${p.which}` : null });
    if (p.a === "init") client.init({ csvText: "x,y\n0,1\n", options: { niterations: p.total, seed: 1 }, unary: [], binary: ["add"], ternary: [] });
    else if (p.a === "start") client.start();
    else if (p.a === "pause") client.pause();
    else if (p.a === "reset") client.reset();
    else if (p.a === "step") client.step(p.k);
    else if (p.a === "evaluate") client.evaluate(`r${++req}:${p.id}:${p.which}`, p.id, p.which);
  };
  let i = 0, wait = 0;
  const user = () =>
    w.turn(w.uiRealm, () => {
      const p = cfg.plan[i++];
      if (p.a === "wait") wait = p.k;
      else act(p);
    });
  for (let n = 0; n < 1500 && !w.viol; n++) {
    if (wait > 0) wait--;
    const more = i < cfg.plan.length && (wait <= 0 || !w.options(null).length);
    if (!(await w.next(more ? user : null))) break;
  }
  // nothing left to do: everything delivered, no timer set
  // What the client handed to the page, once everything has been delivered: requests are answered there, too.
  const atClient = () => {
    const last = asked.map((q) => q.a === "init" || q.a === "reset").lastIndexOf(true);
    if (last >= 0 && prop === "C20") {
      const q = asked[last];
      const g = got.slice(q.at);
      const n = g.filter((x) => x.type === (q.a === "init" ? "ready" : "reset")).length;
      const err = g.filter((x) => x.type === "error" && x.a[1] === undefined).length;
      if (n > 1) w.fail("answered-twice", `the last ${q.a} was answered ${n} times to the page`);
      if (n + err < 1) w.fail("unanswered", `the last ${q.a} was answered neither by success nor by an error to the page`);
    }
    asked.forEach((q, k) => {
      if (q.a !== "evaluate" || k < last || prop !== "C20") return;
      const g = got.slice(q.at);
      const n = g.filter((x) => x.type === "eval" && x.a[0] === q.id).length + g.filter((x) => x.type === "error" && x.a[1] === q.id).length;
      if (n > 1) w.fail("answered-twice", `evaluation request ${q.id} was answered ${n} times to the page`);
      if (n < 1 && !(w.probes.load_failures && g.some((x) => x.type === "error" && x.a[1] === undefined))) w.fail("unanswered", `evaluation request ${q.id} was never answered to the page`);
    });
  };
  const rest = async (bound) => {
    for (let n = 0; n < bound && !w.viol; n++) if (!(await w.next(null))) return true;
    return false;
  };
  if (!w.viol) {
    const idle = await rest(1500);
    judge.atRest(idle);
    if (idle && !w.viol) atClient();
    if (!idle) w.fail("no-progress", "the worker does not come to rest although every search is finite and no message is sent any more");
  }
  const p1 = judge.count.steps, d1 = judge.count.deliver;
  // faults stop
  w.faults = false;
  const send = async (p, bound = 1200) => {
    const at = got.length;
    await w.turn(w.uiRealm, () => act(p));
    if (!(await rest(bound)) && !w.viol) w.fail("no-progress", `after the faults stopped the worker does not come to rest within ${bound} turns of ${p.a}`);
    judge.atRest(true);
    if (!w.viol) atClient();
    return got.slice(at);
  };
  const has = (g, t) => g.some((x) => x.type === t);
  const c20 = (ok, cls, msg) => {
    if (!ok && prop === "C20") w.fail(cls, msg);
  };
  if (!w.viol && judge.ready && cfg.seed % 3 === 0) {
    const i = w.insts.find((x) => x.id === judge.ready);
    const g = await send({ a: "start" });
    c20(i && i.broken ? has(g, "error") : has(g, "done"), "not-usable", `with a ready search and no fault any more, a start does not lead to ${i && i.broken ? "an error" : "completion"}`);
  }
  if (!w.viol && cfg.seed % 5 === 0) {
    const g = await send({ a: "reset" });
    c20(has(g, "reset"), "not-usable", "a reset is not answered");
  }
  if (!w.viol) {
    let g = await send({ a: "init", total: 60 });
    c20(has(g, "ready"), "not-usable", "after the faults stopped, an initialisation does not end in ready");
    if (!w.viol && cfg.seed % 2) {
      g = await send({ a: "step", k: 10 });
      c20(has(g, "snapshot") && has(g, "front"), "not-usable", "after the faults stopped, a step is not answered");
    }
    if (!w.viol) {
      g = await send({ a: "start" });
      c20(g.filter((x) => x.type === "done").length === 1, "not-usable", "after the faults stopped, a started search does not run to completion");
    }
    if (!w.viol) {
      const front = [...got].reverse().find((x) => x.type === "front");
      const id = front ? front.a[0][0].id : "7";
      g = await send({ a: "evaluate", id, which: "train" });
      c20(g.filter((x) => x.type === "eval").length === 1 && g.find((x) => x.type === "eval")?.a[0] === `r${req}:${id}:train`, "not-usable", "after the faults stopped, an evaluation request is not answered with its own id");
    }
  }
  w.nontrivial = d1 > 1 && p1 > 0;
}

export async function run(prop, seed, replay) {
  const cfg = replay?.config ?? config(prop, seed);
  const w = new World(cfg, replay ? new Map(replay.choices) : null);
  try {
    if (PAGE.includes(prop)) await uiRun(prop, cfg, w);
    else await workerRun(prop, cfg, w);
  } catch (e) {
    return { v: "error", class: "harness", msg: String(e.stack || e), probes: {} };
  }
  const out = { v: w.viol ? "viol" : "ok", class: w.viol?.class ?? "", msg: w.viol?.msg ?? "", digest: w.hash.digest("hex").slice(0, 16), sched: w.shash.digest("hex").slice(0, 16), turns: w.turns, choices: w.n, sim_ms: w.now - 1000, probes: w.probes, nontrivial: Boolean(w.nontrivial) };
  if (w.viol || replay) {
    out.made = w.made;
    out.config = cfg;
  }
  if (process.env.TSIM_TRACE) out.events = w.events;
  return out;
}

const [mode, prop, a, ...more] = process.argv.slice(2);
if (mode === "batch") {
  const [stride, secs, max] = more.map(Number);
  const t0 = Date.now();
  let s = Number(a);
  for (let n = 0; n < max && Date.now() - t0 < secs * 1000; n++, s += stride) {
    const d = await run(prop, s);
    if (n === 0 || d.v !== "ok") d.config ??= config(prop, s);
    process.stdout.write(s + " " + JSON.stringify(d) + "\n");
  }
} else if (mode === "one") {
  const rep = more[0] ? JSON.parse(readFileSync(more[0], "utf8")) : null;
  const d = await run(prop, Number(a), rep);
  if (d.events) {
    for (const e of d.events) console.error(JSON.stringify(e));
    delete d.events;
  }
  process.stdout.write(JSON.stringify(d) + "\n");
}
