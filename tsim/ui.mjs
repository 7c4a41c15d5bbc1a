import { parse as papa } from "./stubs/papaparse.js";
import { DEFAULT_CSV } from "./stubs/csv.js";
import { Rng, tagOf } from "./world.mjs";

// C21: the real page (App, panes, store, controller, worker client) against the real worker. The simulated user
// presses what the last rendered page offers; everything shown is read from the rendered page.

const METRICS = ["n", "rmse", "mae", "r²", "max |err|", "mse", "corr", "min |err|"];
const FLAT = new WeakMap(); // committed tree -> all its nodes in document order
function walk(nodes) {
  let l = FLAT.get(nodes);
  if (!l) {
    l = [];
    const go = (ns) => {
      for (const n of ns) {
        l.push(n);
        if (n && n.kids) go(n.kids);
      }
    };
    go(nodes);
    FLAT.set(nodes, l);
  }
  return l;
}
const text = (n) => (typeof n === "string" ? n : n.kids.map(text).join(""));
const byId = (tree, id) => {
  for (const n of walk(tree)) if (n.props && n.props["data-testid"] === id) return n;
  return null;
};
const buttons = (tree) => walk(tree).filter((n) => n.tag === "button");
const eqn = (s) => {
  const m = /^i(\d+)c(\d+)m(\d+)$/.exec(s ?? "");
  return m ? { inst: +m[1], cycle: +m[2], member: m[3] } : null;
};

// What the user sees.
const SEEN = new WeakMap();
function look(tree) {
  let v = SEEN.get(tree);
  if (!v) SEEN.set(tree, (v = look1(tree)));
  return v;
}
function look1(tree) {
  const v = { pane: null, status: null, error: "", rows: [], evals: null, cycles: null, selected: null, metrics: {}, points: [], yhat: [] };
  if (!byId(tree, "search-status")) return v;
  v.pane = "run";
  v.status = text(byId(tree, "search-status"));
  for (const n of walk(tree)) {
    if (!n.props) continue;
    const id = n.props["data-testid"] ?? "";
    if (n.props.className === "errorText") v.error = text(n);
    if (id.startsWith("solution-row-")) {
      const cells = n.kids.filter((k) => k.tag === "td").map(text);
      v.rows.push({ id: id.slice(13), eq: eqn(cells.find((c) => eqn(c))), loss: Number(cells.find((c) => c !== "" && Number.isFinite(Number(c)))), lit: /select/i.test(n.props.className ?? ""), click: n.props.onClick });
    }
    if (id === "selected-equation") v.selected = eqn(text(n));
    const facts = /^complexity (\S+) .* loss (\S+)$/.exec(String(n.props.className).includes("smallText") ? text(n) : "");
    if (facts) v.facts = facts.slice(1).map(Number);
    if (n.tag === "plot") {
      for (const d of n.props.data) {
        if (d.text) v.points = d.text.map((t, i) => ({ id: t, complexity: d.x[i], loss: d.y[i], click: n.props.onClick, i }));
        else if (d.mode === "lines" || (d.mode === "markers" && !/data/.test(d.name ?? ""))) for (const y of d.y ?? []) if (y > 1000) v.yhat.push({ n: y, name: d.name });
      }
    }
  }
  const line = walk(tree).find((n) => n.props && n.props.className === "statusLine");
  const all = text(line ?? { kids: tree });
  const m = /cycles (\d+)\/(\d+).*evals=(\d+)/.exec(all);
  if (m) {
    v.cycles = +m[1];
    v.total = +m[2];
    v.evals = +m[3];
  }
  // metrics: a heading "Train" or "Validation" and then the row n
  let head = null;
  v.table = {};
  for (const n of walk(tree)) {
    if (n.tag === "div" && n.props.className === "subTitle") head = text(n);
    if (n.tag === "tr" && head) {
      const c = n.kids.filter((k) => k.tag === "td").map(text);
      const name = c[0].toLowerCase();
      const t = (v.table[head] ??= {});
      if (c.length === 2 && METRICS.includes(name) && !(name in t)) t[name] = Number(c[1]);
    }
  }
  for (const h in v.table) if ("rmse" in v.table[h]) v.metrics[h] = tagOf({ rmse: v.table[h].rmse, mae: v.table[h].mae, r2: v.table[h]["r²"] });
  return v;
}
const dec = (n) => ({ inst: Math.floor(n / 100000), member: String(Math.floor((n % 100000) / 10)), which: Math.floor(n % 10) ? "val" : "train", row: Math.round((n - Math.floor(n)) * 1000) });

// The controls of the rendered tab by what they are labelled with.
function controls(tree) {
  const out = [];
  for (const n of walk(tree)) {
    if (n.tag !== "label") continue;
    const kids = walk(n.kids);
    const c = kids.find((k) => k.tag === "input" || k.tag === "select");
    if (!c) continue;
    const div = kids.find((k) => k.tag === "div" && k.props.className === "label");
    const label = text(div ?? n);
    const kind = c.tag === "select" ? "select" : c.props.type;
    out.push({ label, kind, value: kind === "checkbox" ? Boolean(c.props.checked) : String(c.props.value), disabled: Boolean(c.props.disabled), choices: kind === "select" ? walk(c.kids).filter((k) => k.tag === "option" && !k.props.disabled).map((k) => String(k.props.value)) : null,
      set: (v) => c.props.onChange({ target: kind === "checkbox" ? { checked: v } : { value: String(v) } }) });
  }
  return out;
}

export async function uiRun(prop, cfg, w) {
  if (cfg.wasmFail) cfg.faults.ui_init = 1;
  const bad = (c, m) => w.fail(c, m);
  const ui = w.load("ui");
  const S = ui.$sim;
  let tree = [];
  const commit = () => {
    S.flush();
    tree = S.tree();
  };

  // The user's latest initialisation and resets, in terms of messages sent.
  let lastInit = null, lastReset = 0, resetsSent = 0, resetsArrived = 0, clean = 0;
  const instPost = new Map(); // instance -> number of the init message it was made for
  const lastPosted = { front: new Map(), snap: new Map() };
  let lastFromWorker = null, ends = 0;
  // what the worker said last of the search the user asked for last
  let session = 0, last = null;
  const STATES = { ready: "ready", paused: "paused", done: "done", reset_done: "idle", error: "error" };
  const came = new Set(); // evaluations that reached the page
  w.on = (e) => {
    if (e.k === "send") {
      if (e.m.session !== undefined) {
        session = e.m.session;
        last = null;
      }
      if (e.m.type === "init") lastInit = e.n;
      if (e.m.type === "reset") lastReset = e.n;
    }
    if (e.k === "deliver") chainPost.set(e.c, e.n);
    if (e.k === "new") instPost.set(e.i, chainPost.get(e.c) ?? 0);
    if (e.k === "post") {
      lastFromWorker = e.m.type;
      const p = chainPost.get(e.c) ?? 0;
      if (e.m.type === "front_update") lastPosted.front.set(Number(/^i(\d+)c/.exec(e.m.front[0].equation)[1]), e.m.front);
      if (e.m.type === "snapshot") lastPosted.snap.set(Math.floor(e.m.snap.total_evals / 1e6), e.m.snap);
      if (e.m.type === "done") ends++;
    }
    if (e.k === "arrive" && e.m.type === "eval_result") came.add(tagOf(e.m.result.metrics));
    if (e.k === "arrive" && e.m.session === session && STATES[e.m.type] && e.m.requestId === undefined) last = e.m;
    if (e.k === "workererror") last = { type: "error", error: e.msg };
    if (e.k === "arrive" && e.m.type === "reset_done") {
      const p = chainPost.get(e.c) ?? 0;
      if (p > clean) clean = p;
    }
    if (e.k === "uncaught" && e.r === "ui") bad("page-error", `an exception escaped in the page: ${e.msg}`);
  };
  const chainPost = new Map();

  const current = (inst) => instPost.get(inst) === lastInit;
  const check = () => {
    const v = look(tree);
    if (!v.pane) return;
    const shown = [];
    v.rows.forEach((r) => r.eq && shown.push([r.eq.inst, "the table of solutions"]));
    if (v.evals != null) shown.push([Math.floor(v.evals / 1e6), "the progress line"]);
    if (v.selected) shown.push([v.selected.inst, "the selected equation"]);
    for (const k in v.metrics) shown.push([dec(v.metrics[k]).inst, `the metrics (${k})`]);
    v.yhat.forEach((y) => shown.push([dec(y.n).inst, "the fit plot"]));
    for (const [i, where] of shown) {
      if (!current(i)) return bad("stale-shown", `${where} shows search ${i} of init message ${instPost.get(i)} although the latest initialisation is message ${lastInit}`);
      if (clean > (lastInit ?? 0) && clean >= lastReset) return bad("stale-shown", `${where} shows search ${i} although the reset of message ${clean} was acknowledged and nothing was initialised since`);
    }
    const sel = v.selected;
    const evs = Object.entries(v.metrics).map(([h, n]) => [dec(n), `the metrics under ${h}`, h === "Train" ? "train" : "val"]).concat(v.yhat.map((y) => [dec(y.n), "the fit plot", /val/.test(y.name ?? "") ? "val" : "train"]));
    for (const [d, where, which] of evs) {
      if (!sel || d.member !== sel.member || d.inst !== sel.inst) return bad("wrong-evaluation", `${where} shows the evaluation of member ${d.member} of search ${d.inst} beside ${sel ? `member ${sel.member} of search ${sel.inst}` : "no equation"}`);
      if (d.which !== which) return bad("wrong-evaluation", `${where} shows the evaluation on ${d.which} data`);
    }
    // every line of the table is of that evaluation
    for (const h in v.table) {
      const t = v.table[h], k = v.metrics[h];
      const x = w.insts.find((i) => i.id === dec(k).inst);
      const due = { n: x?.split[h === "Train" ? "train" : "val"].length, "max |err|": 3 + (k % 89), mse: 100 + (k % 83), corr: 200 + (k % 79), "min |err|": 300 + (k % 73) };
      for (const name in t) if (name in due && Math.abs(t[name] - due[name]) > 1e-3 * due[name]) return bad("wrong-evaluation", `the metrics under ${h} show ${name} = ${t[name]}, the evaluation gave ${due[name]}`);
    }
  };
  w.afterTurn = (realm) => {
    if (realm !== w.uiRealm) return;
    commit();
    check();
    if (prop === "C28") plotted();
    if (prop === "C32") previewed();
  };

  // C28: the points drawn beside a solution are the rows it was searched on, with the prediction for each.
  const near = (a, b) => a === b || Math.abs(a - b) < 1e-6;
  const plotted = () => {
    const v = look(tree);
    if (!v.pane || !v.selected) return;
    const i = w.insts.find((x) => x.id === v.selected.inst);
    if (!i || !i.data) return;
    const d = i.data, x = d.xs[0];
    for (const n of walk(tree)) {
      if (n.tag !== "plot") continue;
      for (const t of n.props.data) {
        if (t.text || !t.name) continue;
        const which = /val/.test(t.name) ? "val" : "train";
        const rows = i.split[which];
        const at = (k) => d.rows[k];
        const curve = /data|model/.test(t.name);
        const tx = t.x ?? [], ty = t.y ?? [];
        const here = `the fit plot ("${t.name}")`;
        w.probe("plots_checked");
        if (curve && d.xs.length !== 1) return bad("wrong-plot", `${here} draws a curve over one input, but search ${i.id} has inputs ${d.xs}`);
        // A point with a coordinate that is no number is not drawn; every row of numbers is drawn once.
        const fin = (...n) => n.every((v) => typeof v === "number" && Number.isFinite(v));
        const full = rows.filter((k) => fin(at(k)[d.y]) && (!curve || fin(at(k)[x])));
        if (full.length < rows.length) w.probe("plots_with_missing_values");
        const drawn = ty.map((y, j) => ({ x: tx[j], y })).filter((p) => fin(p.x, p.y));
        if (/data/.test(t.name)) {
          const left = full.map((k) => ({ x: at(k)[x], y: at(k)[d.y] }));
          const ok = drawn.every((p) => {
            const j = left.findIndex((q) => near(p.x, q.x) && near(p.y, q.y));
            return j >= 0 && left.splice(j, 1);
          });
          if (!ok || left.length) return bad("wrong-plot", `${here} draws the points (${tx}) (${ty}); search ${i.id} has (${rows.map((k) => at(k)[x])}) (${rows.map((k) => at(k)[d.y])})`);
          w.probe("data_points_drawn", drawn.length);
        } else if (ty.length) {
          const of = drawn.map((p) => dec(p.y).row), c = curve ? x : d.y;
          for (let j = 0; j < of.length; j++) if (!at(of[j]) || !near(drawn[j].x, at(of[j])[c])) return bad("wrong-plot", `${here} draws the prediction for row ${of[j]} at ${drawn[j].x} instead of ${at(of[j])?.[c]}`);
          if (new Set(of).size < of.length || full.some((k) => !of.includes(k)) || of.some((k) => !rows.includes(k))) return bad("wrong-plot", `${here} draws predictions for the rows ${of} of ${rows}`);
          w.probe("predictions_drawn", of.length);
        }
      }
    }
  };

  // C32: what the Data tab shows of the data is what was parsed last.
  let parsed = null, loaded = false, autos = new Map();
  const headersOn = () => chosen.get("has_headers") ?? true;
  const textNow = () => chosen.get("the data") ?? DEFAULT_CSV;
  const reading = (csv, headers) => {
    const r = papa(csv, { skipEmptyLines: true, dynamicTyping: true });
    if (r.errors.length || !r.data.length) return null;
    const number = (c) => (typeof c === "number" ? c : typeof c === "string" && c.trim() !== "" ? Number(c) : NaN);
    const rows = r.data.slice(headers ? 1 : 0).map((l) => l.map(number)).filter((l) => l.every(Number.isFinite));
    if (!rows.length) return null;
    const names = headers && r.data[0].length === rows[0].length ? r.data[0].map(String) : rows[0].map((_, j) => "col_" + j);
    return { names, rows };
  };
  const parses = () => {
    if (!loaded) return;
    const p = reading(textNow(), headersOn());
    w.probe(p ? "data_parsed" : "data_refused");
    if (!p) return;
    parsed = p;
    // a column the data does not have, or which is now the target, cannot stay chosen
    const n = p.rows[0].length;
    if (cols.get("y") >= n) cols.delete("y");
    target = target !== null && target < n ? target : n - 1;
    if (cols.get("w") >= n || cols.get("w") === target) cols.delete("w");
    for (const k of [...cols.keys()]) if (typeof k === "number" && (k >= n || k === target)) cols.delete(k);
  };
  const previewed = () => {
    if (!loaded) return;
    if (!byId(tree, "csv-dropzone")) {
      // a search that has begun may parse by itself what was never parsed
      if (!parsed) autos.set(textNow() + headersOn(), reading(textNow(), headersOn()));
      return;
    }
    const card = (title) => walk(tree).find((n) => n.props && String(n.props.className).split(" ").includes("card") && n.kids.some((k) => k.kids && k.props.className === "cardTitle" && text(k) === title));
    const table = (c, tag) => walk(c.kids).filter((n) => n.tag === "tr").map((r) => r.kids.filter((k) => k.tag === tag).map(text)).filter((r) => r.length);
    const y = of("y column");
    const shown = y ? card("Preview") : null;
    const cells = (p) => [[p.names.slice(0, 12)], p.rows.slice(0, 12).map((r) => r.slice(0, 12).map((v) => v.toFixed(4)))];
    if (!parsed) {
      if (!y) return;
      const have = JSON.stringify([table(shown, "th"), table(shown, "td")]);
      parsed = [...autos.values()].find((p) => p && JSON.stringify(cells(p)) === have) ?? null;
      if (!parsed) return bad("wrong-preview", "the page shows a preview although nothing was parsed that looks like it");
    }
    const say = (what, have, want) => JSON.stringify(have) !== JSON.stringify(want) && bad("wrong-preview", `${what} is ${JSON.stringify(have)}; the data parsed last has ${JSON.stringify(want)}`);
    if (!y) return bad("wrong-preview", "data was parsed, but the page shows no columns");
    w.probe("previews_checked");
    const [th, td] = cells(parsed);
    const n = parsed.names.length;
    say("the preview's head", table(shown, "th"), th);
    say("the preview", table(shown, "td"), td);
    const size = walk(tree).filter((k) => k.kids && k.props.className === "muted").map(text).map((t) => /Parsed (\d+) rows × (\d+) columns/.exec(t)).find(Boolean);
    say("the size", size ? [+size[1], +size[2]] : null, [parsed.rows.length, n]);
    const named = (l) => walk(tree).filter((k) => k.tag === "label").find((k) => text(k).startsWith(l));
    const offered = (l) => walk([named(l)]).filter((k) => k.tag === "option" && k.props.value !== "").map(text);
    const cols = parsed.names.map((c, j) => `${j}: ${c}`);
    say("the target columns offered", offered("y column"), cols);
    say("the weights columns offered", offered("weights column"), cols);
    say("the input columns offered", controls(tree).map((c) => c.label).filter((l) => /^\d+: /.test(l)), cols);
    // the summary, to the digits shown
    const sums = table(card("Column summary"), "td");
    say("the summarised columns", sums.map((r) => r[0]), parsed.names);
    sums.forEach((r, j) => {
      const v = parsed.rows.map((l) => l[j]).filter((x) => x !== undefined);
      const mean = v.reduce((a, b) => a + b, 0) / v.length, scale = Math.max(...v.map(Math.abs)), sd = Math.sqrt(v.reduce((a, b) => a + (b - mean) ** 2, 0) / v.length);
      const want = [mean, sd, Math.min(...v), Math.max(...v)];
      want.forEach((x, k) => {
        const h = Number(r[k + 1]);
        // the deviation of values close together is only known to within rounding
        const tol = k === 1 ? 1e-3 * x + 1e-4 * scale : 1e-3 * Math.abs(x) + 1e-9;
        if (!(Math.abs(h - x) <= tol) && !(k === 1 && x <= 1e-5 * scale)) bad("wrong-summary", `the ${["mean", "deviation", "smallest", "largest"][k]} of column ${j} is shown as ${r[k + 1]} instead of ${x}`);
      });
    });
    // the plot of one input against the target
    const ins = controls(tree).filter((c) => /^\d+: /.test(c.label) && c.value && !c.disabled).map((c) => +c.label.split(":")[0]);
    const plot = walk(card("X vs y").kids).find((k) => k.tag === "plot");
    const at = of("x column");
    if (!ins.length) return;
    if (!plot || !at) return bad("wrong-scatter", `inputs ${ins} are selected, but the page draws none of them`);
    if (!at.choices.includes(at.value)) return bad("wrong-scatter", `the plot is of input column ${at.value}, but the inputs are ${at.choices}`);
    if (+y.value >= n || +at.value >= n) return;
    const full = parsed.rows.map((l) => [l[+at.value], l[+y.value]]).filter((p) => p.every((x) => x !== undefined));
    const d = plot.props.data[0];
    const have = (d.x ?? []).map((x, j) => [x, d.y[j]]);
    if (JSON.stringify(have.slice().sort()) !== JSON.stringify(full.slice().sort())) bad("wrong-scatter", `the plot of column ${at.value} against ${y.value} draws ${JSON.stringify(have)} instead of ${JSON.stringify(full)}`);
    const title = (a) => (typeof a.title === "string" ? a.title : a.title?.text);
    say("the plot's axes", [title(plot.props.layout.xaxis), title(plot.props.layout.yaxis)], [parsed.names[+at.value], parsed.names[+y.value]]);
    w.probe("scatter_points", full.length);
  };

  // C29: what the tabs show is what the search gets.
  const chosen = new Map(); // setting -> what the user last gave it
  // the columns the user chose: "y", "w" (null: none) and, per input column, whether it is one
  const cols = new Map();
  let target = null;
  const choose = (c, v) => {
    const was = c.label.startsWith("y") ? "y" : "w";
    c.set(v);
    const n = v === "" ? null : +v;
    if (was === "y") target = n;
    if (was === "y" && cols.get("w") === n) cols.delete("w");
    cols.delete(n);
    cols.set(was, n);
    w.log({ k: "column", what: was, n });
    w.probe("columns_chosen");
  };
  const tick = (c) => {
    c.set(!c.value);
    cols.set(+c.label.split(":")[0], !c.value);
    w.log({ k: "column", what: "x", n: +c.label.split(":")[0], on: !c.value });
    w.probe("columns_chosen");
  };
  let typedText = null;
  const show = (tab) => {
    press(tab);
    commit();
  };
  const tour = () => {
    const seen = { settings: {} };
    show("Data");
    seen.text = String(walk(tree).find((n) => n.tag === "textarea").props.value);
    seen.columns = Boolean(controls(tree).find((c) => c.label === "y column"));
    seen.xs = [];
    for (const c of controls(tree)) {
      const m = /^(\d+): /.exec(c.label);
      if (m) {
        if (c.value && !c.disabled) seen.xs.push(+m[1]);
      } else if (c.label === "has header row") seen.headers = c.value;
      else if (c.label === "y column") seen.y = c.choices.includes(c.value) ? +c.value : null;
      else if (c.label === "weights column (optional)") seen.w = c.choices.includes(c.value) ? (c.value === "" ? null : +c.value) : undefined;
      else if (c.label === "validation fraction") seen.fraction = Number(c.value);
    }
    show("Configure");
    seen.ops = [];
    for (const c of controls(tree)) {
      if (c.kind === "checkbox" && OPS.has(c.label.split(" ")[0])) {
        if (c.value) seen.ops.push(c.label.split(" ")[0]);
      } else seen.settings[c.label] = c.kind === "number" ? Number(c.value) : c.value;
    }
    show("Run");
    seen.settings.niterations = Number(byId(tree, "opt-niterations").props.value);
    return seen;
  };
  const NUMBERS = [1, 2, 5, 0.5, 40, 0];
  // operators are ticked more often than the many other fields together
  const OPS = new Set(["abs", "cos", "cosh", "exp", "exp2", "log", "log2", "neg", "sin", "sinh", "sqrt", "add", "sub", "mul", "div", "max", "min", "pow"]);
  const begin = () => {
    if (prop !== "C29") return press("Initialize");
    const seen = tour();
    const at = w.uiPosts.length;
    if (!press("Initialize")) {
      if (seen.ops.length) bad("not-offered", `${seen.ops.length} operators are selected, but the page does not offer to initialise`);
      return;
    }
    const m = w.uiPosts.slice(at).find((p) => p.m.type === "init")?.m;
    if (!m) return bad("not-sent", "Initialize was pressed, but the worker was not asked to initialise");
    w.probe("initialisations_compared");
    const differs = (what, a, b) => a !== undefined && JSON.stringify(a) !== JSON.stringify(b) && bad("not-as-shown", `the page shows ${what} as ${JSON.stringify(a)}, but the search gets ${JSON.stringify(b)}`);
    differs("the data", seen.text, m.csvText);
    differs("the header row", seen.headers, m.options.has_headers);
    if (seen.columns) {
      if (seen.y !== null) differs("the target column", seen.y, m.options.y_column);
      differs("the weights column", seen.w, m.options.weights_column);
      if (!w.stale) differs("the input columns", seen.xs, m.options.x_columns);
      differs("the validation fraction", seen.fraction, m.options.validation_fraction);
    }
    for (const [k, v] of cols) {
      const got = k === "y" ? m.options.y_column : k === "w" ? m.options.weights_column : m.options.x_columns?.includes(k);
      if (got !== v) return bad("not-as-set", `the user chose ${k === "y" ? "target column " + v : k === "w" ? "weights column " + v : `column ${k} ${v ? "as an input" : "not to be an input"}`}, but the search gets ${JSON.stringify([m.options.y_column, m.options.weights_column, m.options.x_columns])} (target, weights, inputs)`);
    }
    const ops = [...m.unary, ...m.binary, ...m.ternary];
    differs("the operators", [...seen.ops].sort(), [...ops].sort());
    for (const [k, v] of Object.entries(seen.settings)) differs(k, v, k in m.options ? m.options[k] : m.options.mutation_weights[k]);
    for (const [k, v] of chosen) {
      const got = k === "the data" ? m.csvText : k.startsWith("op ") ? ops.includes(k.slice(3)) : k in m.options ? m.options[k] : m.options.mutation_weights[k];
      if (JSON.stringify(got) !== JSON.stringify(v)) return bad("not-as-set", `the user set ${k} to ${JSON.stringify(v)}, but the search gets ${JSON.stringify(got)}`);
    }
  };

  const press = (label) => {
    const b = buttons(tree).find((x) => text(x).startsWith(label));
    if (!b || b.props.disabled) return false;
    w.log({ k: "press", label });
    w.probe("presses");
    b.props.onClick?.({ preventDefault() {}, stopPropagation() {} });
    return true;
  };
  const act = (p) => {
    if (p.a === "init") begin();
    else if (p.a === "start") press("Start");
    else if (p.a === "pause") press("Pause");
    else if (p.a === "reset") press("Reset");
    else if (p.a === "tab") press(["Run", "Data", "Configure"][p.k]);
    else if (p.a === "row") {
      const r = look(tree).rows;
      if (r.length) {
        w.log({ k: "press", label: "row " + (p.k % r.length) });
        w.probe("selections");
        r[p.k % r.length].click();
      }
    } else if (p.a === "point") {
      const r = look(tree).points;
      if (r.length) {
        const x = r[p.k % r.length];
        w.log({ k: "press", label: "point " + x.i });
        w.probe("selections");
        x.click({ points: [{ pointIndex: x.i }] });
      }
    } else if (p.a === "iters") {
      const n = byId(tree, "opt-niterations");
      if (n && !n.props.disabled) {
        n.props.onChange({ target: { value: String(p.k) } });
        chosen.set("niterations", p.k);
      }
    } else if (p.a === "edit") {
      edit(p);
      if (p.back) show("Run");
    } else if (p.a === "set") {
      show("Configure");
      const l = controls(tree);
      if (l.length) {
        const o = l.filter((c) => OPS.has(c.label.split(" ")[0]));
        const c = p.v % 3 && o.length ? o[p.k % o.length] : l[p.k % l.length];
        const op = c.label.split(" ")[0];
        if (c.kind === "checkbox") {
          c.set(!c.value);
          chosen.set(OPS.has(op) ? "op " + op : c.label, !c.value);
        } else if (c.kind === "select") {
          const v = c.choices[p.v % c.choices.length];
          c.set(v);
          chosen.set(c.label, v);
        } else {
          const v = NUMBERS[p.v % NUMBERS.length];
          c.set(v);
          chosen.set(c.label, v);
        }
        w.log({ k: "set", label: c.label });
        w.probe("settings_changed");
      }
      if (p.back) show("Run");
    }
  };
  // What a user does on the Data tab.
  const edit = (p) => {
    show("Data");
    w.log({ k: "edit", what: p.what });
    w.probe("data_edits");
    const l = controls(tree);
    const of = (label) => l.find((c) => c.label === label);
    const csv = cfg.csvs[p.k % cfg.csvs.length] ?? "";
    if (of("y column")?.choices.includes(of("y column").value)) target = +of("y column").value;
    if (p.what === "text") {
      walk(tree).find((n) => n.tag === "textarea").props.onChange({ target: { value: csv } });
      chosen.set("the data", csv);
      if (p.parse) {
        commit();
        if (press("Parse")) parses();
      }
    } else if (p.what === "file") {
      const file = { name: "data.csv", text: () => new Promise((res) => w.pending.push({ realm: w.uiRealm, what: "file", go: () => { chosen.set("the data", csv); parses(); res(csv); } })) };
      byId(tree, "csv-dropzone").props.onDrop({ preventDefault() {}, stopPropagation() {}, dataTransfer: { files: [file] } });
    } else if (p.what === "parse") {
      if (press("Parse")) parses();
    } else if (p.what === "inspect") {
      const c = of("x column");
      if (c && c.choices.length) c.set(c.choices[p.k % c.choices.length]);
    } else if (p.what === "headers") {
      const c = of("has header row");
      c.set(!c.value);
      chosen.set("has_headers", !c.value);
    } else if (p.what === "y" || p.what === "w") {
      const c = of(p.what === "y" ? "y column" : "weights column (optional)");
      if (c && c.choices.length) choose(c, c.choices[p.k % c.choices.length]);
    } else if (p.what === "x") {
      const x = l.filter((c) => /^\d+: /.test(c.label) && !c.disabled);
      if (x.length) tick(x[p.k % x.length]);
    } else if (p.what === "fraction") {
      const v = [0, 0.25, 0.5, 0.9][p.k % 4];
      const c = of("validation fraction");
      if (c) {
        c.set(v);
        chosen.set("validation_fraction", v);
      }
    }
  };
  // A user who brings data that can be searched and chooses columns among those offered.
  const useable = () => {
    show("Data");
    const csv = cfg.last;
    if (!of("has header row").value) {
      of("has header row").set(true);
      chosen.set("has_headers", true);
      commit();
    }
    walk(tree).find((n) => n.tag === "textarea").props.onChange({ target: { value: csv } });
    chosen.set("the data", csv);
    commit();
    if (press("Parse")) parses();
    commit();
    const y = of("y column");
    if (!y) return bad("not-parsed", "well-formed data was entered and parsed, but the page offers no columns");
    target = +y.value;
    const d = new Rng(cfg.seed * 8 + 7);
    while (d.chance(0.6)) {
      const c = d.pick([of("y column"), of("weights column (optional)"), ...xs()]);
      if (c.kind === "checkbox") tick(c);
      else choose(c, d.pick(c.choices));
      commit();
    }
    if (!xs().some((c) => c.value)) {
      if (!xs().length) {
        choose(of("weights column (optional)"), "");
        commit();
      }
      tick(xs()[0]);
      commit();
    }
    show("Configure");
    if (prop === "C29")
      for (const c of controls(tree).filter((c) => c.kind === "number" && d.chance(0.3)).map((c) => c.label)) {
        const v = d.pick(NUMBERS);
        of(c).set(v);
        chosen.set(c, v);
        w.probe("settings_changed");
        commit();
      }
    const add = controls(tree).find((c) => c.label.startsWith("add"));
    if (!add.value) {
      add.set(true);
      chosen.set("op add", true);
      commit();
    }
    show("Run");
  };
  const of = (label) => controls(tree).find((c) => c.label === label);
  const xs = () => controls(tree).filter((c) => /^\d+: /.test(c.label) && !c.disabled);
  const click = (p) => w.turn(w.uiRealm, () => act(p));
  const status = () => look(tree).status;

  await w.turn(w.uiRealm, () => S.mount(ui.jsx(ui.App, {})));
  // the page loads
  for (let n = 0; n < 30; n++) {
    const b = byId(tree, "parse-preview");
    if (b && !b.props.disabled) break;
    if (!(await w.next(null))) break;
  }
  const b0 = byId(tree, "parse-preview");
  loaded = Boolean(b0 && !b0.props.disabled);
  if (cfg.seed % 2) await w.turn(w.uiRealm, () => press("Parse") && parses());
  await click({ a: "tab", k: 0 });

  let i = 0, wait = 0;
  const user = () =>
    w.turn(w.uiRealm, () => {
      const p = cfg.plan[i++];
      if (p.a === "wait") wait = p.k;
      else act(p);
    });
  for (let n = 0; n < 900 && !w.viol; n++) {
    if (wait > 0) wait--;
    const more = i < cfg.plan.length && (wait <= 0 || !w.options(null).length);
    if (i >= cfg.plan.length && n > 200) break;
    if (!(await w.next(more ? user : null))) break;
  }
  const did = w.probes.presses ?? 0;
  w.faults = false;

  // The user stops acting; messages are delivered. Is a loop running? Then it takes turns.
  const settle = async () => {
    await w.drain();
    let from = w.turns;
    for (let n = 0; n < 120 && !w.viol; n++) {
      const o = w.options(null);
      if (!o.length) break;
      await o[n % o.length].run();
    }
    await w.drain();
    from = w.turns;
    for (let n = 0; n < 120 && !w.viol; n++) {
      const o = w.options(null);
      if (!o.length) break;
      await o[n % o.length].run();
    }
    const active = w.stepsByTurn > from;
    await w.drain();
    return active;
  };
  const judge = async (when) => {
    let active = await settle();
    if (w.viol) return;
    const finishedBefore = ends;
    if (status() === null) await click({ a: "tab", k: 0 });
    active = await settle();
    if (w.viol) return;
    const s = status();
    if (active && ends === finishedBefore && s !== "running") return bad("status", `${when}: the worker advances the search, but the page says "${s}"`);
    if (!active && s === "running") return bad("status", `${when}: the page says "running", but no search is running`);
    if (s === "initializing") return bad("status", `${when}: the page says "initializing", but nothing is pending`);
    if (s === "done" && lastFromWorker === "reset_done") return bad("status", `${when}: the page says "done" after a reset`);
    const v = look(tree);
    if (!active && last && STATES[last.type] !== s && !(last.type === "reset_done" && s === "error")) return bad("status", `${when}: the worker's last word was "${last.type}", but the page says "${s}"`);
    if (!active && last?.type === "error" && !v.error) return bad("status", `${when}: the worker reported "${last.error}", but the page does not say so`);
    // what the worker last posted for the search the user asked for last
    let inst = 0;
    for (const [k, p] of instPost) if (p === lastInit) inst = k;
    const live = !(clean > (lastInit ?? 0));
    const members = live ? lastPosted.front.get(inst) ?? [] : [];
    const want = members.map((m) => m.equation);
    const have = v.rows.map((r) => (r.eq ? `i${r.eq.inst}c${r.eq.cycle}m${r.eq.member}` : "?")).reverse();
    if (JSON.stringify(want) !== JSON.stringify(have)) return bad("front", `${when}: the worker's front is ${want} but the page shows ${have}`);
    const close = (a, b) => Math.abs(a - b) <= 1e-3 * Math.abs(b);
    members.forEach((m, k) => {
      const r = v.rows[v.rows.length - 1 - k];
      if (!close(r.loss, m.loss)) bad("front", `${when}: the loss of ${m.equation} is ${m.loss} but the page shows ${r.loss}`);
    });
    const snap = live ? lastPosted.snap.get(inst) ?? null : null;
    const points = snap ? snap.pareto_points : [];
    if (v.points.length !== points.length || points.some((p, k) => p.id !== v.points[k].id || p.complexity !== v.points[k].complexity || !close(v.points[k].loss, p.loss))) return bad("front", `${when}: the worker's Pareto points are ${JSON.stringify(points)} but the page draws ${JSON.stringify(v.points)}`);
    const lit = v.rows.filter((r) => r.lit);
    if (lit.length > 1 || (lit.length && (!v.selected || lit[0].eq.member !== v.selected.member))) return bad("front", `${when}: row ${lit.map((r) => r.id)} is marked as selected, but member ${v.selected?.member} is described`);
    if (lit.length && v.selected)
      for (const which of ["train", "val"]) {
        const n = v.selected.inst * 100000 + Number(lit[0].id) * 10 + (which === "val" ? 1 : 0);
        if (came.has(n) && !Object.values(v.metrics).includes(n)) bad("evaluation", `${when}: the evaluation of member ${lit[0].id} on ${which} data reached the page, but is not shown beside it`);
      }
    const member = members.find((m) => v.selected && eqn(m.equation).member === v.selected.member);
    if (v.selected && member && lit.length && v.facts && (v.facts[0] !== member.complexity || !close(v.facts[1], member.loss))) return bad("front", `${when}: the selected equation has complexity ${member.complexity} and loss ${member.loss} but the page shows ${v.facts}`);
    const wantC = snap ? snap.cycles_completed : null;
    if (wantC !== v.cycles) return bad("front", `${when}: the worker last reported cycle ${wantC} but the page shows ${v.cycles}`);
    // when nothing runs, that is also the state the search is in
    const x = w.insts.find((y) => y.id === inst);
    if (!active && live && x && !x.broken && (s === "paused" || s === "done") && v.cycles !== x.cycles) return bad("front", `${when}: the search rests at cycle ${x.cycles} but the page shows ${v.cycles}`);
    return s;
  };
  const s1 = await judge("after the last action");
  // whatever the page offers now must do what it says
  if (!w.viol && s1 === "running") {
    await click({ a: "pause" });
    const s = await judge("after pausing");
    if (!w.viol && s !== "paused" && s !== "done") bad("status", `pause pressed while running, but the page says "${s}"`);
  }
  if (!w.viol && (status() === "ready" || status() === "paused")) {
    const broken = w.insts.some((x) => instPost.get(x.id) === lastInit && (x.broken || x.freed));
    await click({ a: "start" });
    const s = await judge("after pressing start");
    if (!w.viol && !broken && s !== "running" && s !== "done") bad("status", `start offered and pressed, but then the page says "${s}"${look(tree).error ? " (" + look(tree).error + ")" : ""}`);
  }
  if (!w.viol && cfg.seed % 3 === 0) {
    await click({ a: "reset" });
    const s = await judge("after pressing reset");
    if (!w.viol && s !== "idle") bad("status", `reset pressed, but then the page says "${s}"`);
  }
  if (!w.viol && !cfg.wasmFail) {
    // files that are still being read arrive first
    await settle();
    await w.turn(w.uiRealm, useable);
    if (w.viol) return;
    await click({ a: "init" });
    const s = await judge("after a final initialisation");
    if (!w.viol && s !== "ready") bad("status", `initialised without faults, but the page says "${s}" ${look(tree).error}`);
    if (!w.viol) {
      await click({ a: "start" });
      const s = await judge("after a final start");
      if (!w.viol && s !== "running" && s !== "done") bad("status", `started without faults, but the page says "${s}"`);
      if (!w.viol && look(tree).rows.length) {
        await click({ a: "row", k: 0 });
        await click({ a: "pause" });
        await settle();
        await click({ a: "row", k: 0 });
        await judge("after selecting a solution");
        const v = look(tree);
        const x = w.insts.find((i) => i.id === v.selected?.inst);
        if (!w.viol && v.rows.length)
          for (const [h, which] of [["Train", "train"], ["Validation", "val"]])
            if (x?.split[which].length && v.metrics[h] === undefined) bad("evaluation", `a solution was selected while nothing runs, but its evaluation on ${which} data is not shown`);
      }
    }
  }
  w.nontrivial = did > 1 && w.insts.length > 0;
}
