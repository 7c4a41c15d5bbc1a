// Judges the recorded history of one worker. Works on what the worker was given and what it did:
// messages delivered and posted, calls on the search object, exceptions.

import { tagOf } from "./world.mjs";

const instOf = (m) => {
  if (m.type === "snapshot") return Math.floor(m.snap.total_evals / 1e6);
  if (m.type === "front_update") return Number(/^i(\d+)c/.exec(m.front[0]?.equation ?? "")?.[1] ?? 0);
  if (m.type === "eval_result") return Math.floor(tagOf(m.result.metrics) / 100000);
  return 0;
};
const cyclesOf = (m) => (m.type === "snapshot" ? m.snap.cycles_completed : Number(/^i\d+c(\d+)m/.exec(m.front[0]?.equation ?? "")?.[1] ?? -1));

export class Judge {
  constructor(which, fail) {
    this.which = which;
    this.fail = fail;
    this.type = new Map(); // chain -> type of the message it descends from
    this.msg = new Map();
    this.posts = new Map(); // chain -> posts
    this.insts = new Map(); // instance -> { chain, total, cycles, snapAt, frontAt }
    this.acked = 0; // chain of the last acknowledged init or reset
    this.paused = false;
    this.lastStart = 0;
    this.lastPause = 0;
    this.startsSinceDone = 0;
    this.loop = 0;
    this.loops = new Set();
    this.super = 0; // chain of the last delivered init or reset
    this.owed = []; // exceptions that must be reported
    this.last = 0;
    this.ready = 0; // instance of the current, ready search, 0 when there is none
    this.readyChain = 0;
    this.count = { deliver: 0, steps: 0, posts: 0 };
    this.lastStop = 0;
    this.doneAfter = 0;
    this.evals = new Map();
    this.errAfter = 0;
    this.initEnded = new Map();
  }
  bad(p, cls, msg) {
    if (p === this.which) this.fail(cls, msg);
  }
  on(e) {
    if (!e.r || e.r === "ui") return;
    const f = this["_" + e.k];
    if (f) f.call(this, e);
  }
  _deliver(e) {
    const c = e.c, t = e.m.type;
    this.count.deliver++;
    this.type.set(c, t);
    this.msg.set(c, e.m);
    this.posts.set(c, []);
    if (t === "start") {
      this.paused = false;
      this.lastStart = c;
      this.startsSinceDone++;
    }
    if (t === "pause") this.lastPause = c;
    if (t === "pause" || t === "reset" || t === "init") this.lastStop = c;
    if (t === "init" || t === "reset") {
      this.super = c;
      this.ready = 0;
    }
  }
  _new(e) {
    this.insts.set(e.i, { chain: e.c ?? 0, total: e.total, cycles: 0, snapAt: -1, frontAt: -1 });
  }
  dead(i) {
    const x = this.insts.get(i);
    return x && x.chain < this.acked;
  }
  name(c) {
    return c ? `message ${c} (${this.type.get(c) ?? "?"})` : "no message";
  }
  _call(e) {
    const x = this.insts.get(e.i);
    if (e.fn === "evaluate_member") this.evals.set(e.c, e);
    if (e.fn !== "step" && e.fn !== "is_finished") return;
    this.last = e.i;
    if (e.fn !== "step" || !(e.arg > 0)) return;
    this.count.steps++;
    x.cycles += Math.min(e.arg, x.total - x.cycles);
    const own = this.type.get(e.c) === "step";
    if (this.paused && !(own && e.c > this.pausedAt)) this.bad("C19", "advance-after-pause", `search ${e.i} advances in ${this.name(e.c)} although the pause was acknowledged and no start or step came since`);
    if (this.dead(e.i)) this.bad("C19", "advance-after-reset", `search ${e.i} of ${this.name(x.chain)} still advances in ${this.name(e.c)} after ${this.name(this.acked)} was acknowledged`);
    if (!own) {
      if (e.c !== this.loop) {
        if (this.loops.has(e.c)) this.bad("C19", "two-loops", `two loops advance the search in turn: ${this.name(this.loop)} and ${this.name(e.c)}`);
        this.loop = e.c;
        this.loops.add(e.c);
      }
    }
  }
  _throw(e) {
    if (e.c === undefined) return;
    this.owed.push({ c: e.c, msg: e.msg, stale: e.c < this.super, done: false });
  }
  _uncaught(e) {
    this.bad("C20", "escaped", `an exception escaped from the worker (${e.how}): ${e.msg}`);
  }
  _post(e) {
    const m = e.m, c = e.c ?? 0, t = m.type;
    this.count.posts++;
    this.posts.get(c)?.push(e);
    const own = this.type.get(c) === "step" && c > (this.pausedAt ?? 0);
    const i = instOf(m);
    if (i && this.dead(i)) this.bad("C19", "stale-report", `${t} of search ${i} is posted after ${this.name(this.acked)} was acknowledged`);
    if (this.paused && !own && (t === "snapshot" || t === "front_update" || t === "done")) this.bad("C19", "report-after-pause", `${t} is posted in ${this.name(c)} although the pause was acknowledged and no start or step came since`);
    const x = this.insts.get(i);
    if (t === "snapshot" && x) x.snapAt = cyclesOf(m);
    if (t === "front_update" && x) x.frontAt = cyclesOf(m);
    if (t === "eval_result") {
      const q = this.msg.get(c);
      const v = tagOf(m.result.metrics) % 100000;
      if (!q || q.type !== "evaluate" || q.requestId !== m.requestId) this.bad("C20", "wrong-answer", `an evaluation result with request id ${m.requestId} is posted in ${this.name(c)}`);
      else if (Math.floor(v / 10) !== Number(q.memberId) || (v % 10 === 1) !== (q.which === "val")) this.bad("C20", "wrong-answer", `request ${q.requestId} for member ${q.memberId} (${q.which}) is answered with the evaluation of another member`);
    }
    if (t === "ready") {
      this.initEnded.set(c, "ready");
      if (c < this.acked) this.bad("C19", "stale-report", `ready of ${this.name(c)} is posted after ${this.name(this.acked)} was acknowledged`);
      else this.acked = c;
      if (c >= this.super) {
        for (const [k, v] of this.insts) if (v.chain === c) this.ready = k;
      }
    }
    if (t === "reset_done") this.acked = Math.max(this.acked, this.type.get(c) === "reset" ? c : this.super);
    if (t === "error") {
      if (this.type.get(c) === "init") this.initEnded.set(c, "error");
      const o = this.owed.find((o) => o.c === c && !o.done);
      if (o) o.done = true;
      if (c && c < this.acked && (this.type.get(c) === "start" || this.type.get(c) === "init")) this.bad("C19", "stale-report", `an error of ${this.name(c)} is posted after ${this.name(this.acked)} was acknowledged`);
      this.errAfter = this.lastStart;
    }
    if (t === "paused") {
      if (this.lastPause < this.acked) this.bad("C19", "stale-report", `"paused" is posted in ${this.name(c)} after ${this.name(this.acked)} was acknowledged, and no pause came since`);
      this.paused = this.type.get(c) === "pause" ? this.lastStart < c : true;
      this.pausedAt = Math.max(...this.type.keys());
      this.pausedOf = this.lastStart;
    }
    if (t === "done") {
      const l = this.insts.get(this.last);
      if (!this.startsSinceDone) this.bad("C19", "done-twice", `"done" is posted again in ${this.name(c)} without a start since the last one`);
      this.startsSinceDone = 0;
      this.doneAfter = this.lastStart;
      if (!l) this.bad("C19", "false-done", `"done" is posted without any search`);
      else {
        if (l.cycles < l.total) this.bad("C19", "false-done", `"done" is posted for search ${this.last} after ${l.cycles} of ${l.total} cycles`);
        if (this.dead(this.last)) this.bad("C19", "stale-report", `"done" of search ${this.last} is posted after ${this.name(this.acked)} was acknowledged`);
        if (l.snapAt !== l.cycles) this.bad("C19", "no-final-snapshot", `"done" is posted for search ${this.last} but the last snapshot shows cycle ${l.snapAt} of ${l.cycles}`);
        if (l.frontAt !== l.cycles) this.bad("C19", "no-final-front", `"done" is posted for search ${this.last} but the last front is that of cycle ${l.frontAt} of ${l.cycles}`);
      }
    }
  }
  // Everything has been delivered and nothing is pending any more; `idle` when no loop turn is due either.
  atRest(idle) {
    for (const o of this.owed) if (!o.done && !o.stale) this.bad("C20", "unreported", `the exception "${o.msg}" in ${this.name(o.c)} was never reported`);
    this.owed = [];
    for (const [c, t] of this.type) {
      const posts = this.posts.get(c);
      const n = (...k) => posts.filter((p) => k.includes(p.m.type)).length;
      if (t === "evaluate") {
        const a = n("eval_result", "error");
        if (a !== 1) this.bad("C20", a ? "answered-twice" : "unanswered", `the evaluation request of message ${c} got ${a} answers`);
      }
      if (t === "init") {
        const later = [...this.type].some(([d, u]) => d > c && (u === "init" || u === "reset"));
        const a = n("ready", "error");
        if (a > 1 || (!later && a !== 1)) this.bad("C20", a ? "answered-twice" : "unanswered", `the initialisation of message ${c} ended in ${a} ready or error messages`);
      }
      if (t === "step") {
        const a = n("snapshot") + n("error");
        if (!a) this.bad("C20", "unanswered", `the step of message ${c} got no answer`);
      }
      if (t === "reset" && n("reset_done") !== 1) this.bad("C20", "unanswered", `the reset of message ${c} got ${n("reset_done")} answers`);
    }
    // a pause that came while the search ran is acknowledged, unless the run had ended by itself
    if (this.lastPause && this.lastPause === this.lastStop && this.lastPause > this.lastStart && this.lastStart > this.super && this.ready && this.pausedOf !== this.lastStart && this.errAfter !== this.lastStart && this.doneAfter !== this.lastStart)
      this.bad("C19", "pause-lost", `the pause of message ${this.lastPause} was never acknowledged`);
    if (idle && this.lastStart && this.lastStart > this.lastStop && this.ready && this.doneAfter !== this.lastStart && this.errAfter !== this.lastStart)
      this.bad("C19", "not-completed", `the search started by message ${this.lastStart} neither completed nor failed, and nothing is left to run`);
  }
}
