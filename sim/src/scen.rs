//! Scenarios: one per property. Every scenario ends the process through `report::finish`.
use crate::cfg::Cfg;
use crate::ops::{opf, Flt, SimFault};
use crate::oracle::{self, Hall, Member, Spec, Want};
use crate::report::{self, probe};
use crate::sched::{self, SchedCfg, Strategy};
use crate::setup::{session, Ops, Sess};
use crate::sys;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use symbolic_regression::{equation_search, SearchEngine, SearchResult};

pub type Res<T, const D: usize> = SearchResult<T, Ops<T>, D>;
pub type Eng<T, const D: usize> = SearchEngine<T, Ops<T>, D>;

pub fn on_panic(msg: &str, file: &str, line: u32) {
    report::violation("panic", &format!("unexpected panic at {file}:{line}: {msg}"));
}

pub fn sched_cfg(c: &Cfg, forced: Option<Vec<(u64, u32)>>) -> SchedCfg {
    SchedCfg {
        strategy: match c.get("strategy", |r| *r.pick(&[0, 0, 1, 2, 3])) {
            0 => Strategy::Random,
            1 => Strategy::Pct,
            2 => Strategy::Starve,
            _ => Strategy::RoundRobin,
        },
        preempt_inv: c.pick("preempt", &[0, 2, 8, 32, 128, 1024]) as u64,
        alloc_inv: c.pick("allocpt", &[0, 0, 7, 100, 1000]) as u64,
        spurious_inv: c.pick("spurious", &[0, 0, 3, 20, 200]) as u64,
        pct_depth: c.range("pctdepth", 1, 6) as u64,
        pct_horizon: c.pick("pcthor", &[500, 5_000, 50_000]) as u64,
        starve_len: c.pick("starvelen", &[200, 5_000, 50_000]) as u64,
        starve_inv: c.pick("starveinv", &[100, 1_000, 10_000]) as u64,
        tick_ns: c.pick("tick", &[1, 200, 5_000, 100_000]) as u64,
        jump_inv: c.pick("jump", &[0, 0, 50, 1000]) as u64,
        jump_ns: c.pick("jumpns", &[1_000_000, 2_000_000_000, 5_000_000_000_000]) as u64,
        fair_after: 1_000_000,
        hang_after: 5_000_000,
        forced,
        hash_seed: c.get("hashseed", |r| r.below(1 << 40) as i64) as u64,
        clock0: 1_000_000_000_000 + c.get("clock0", |r| r.below(1 << 40) as i64) as u64,
    }
}

pub fn run(prop: &str, seed: u64, over: BTreeMap<String, i64>, forced: Option<Vec<(u64, u32)>>) -> ! {
    let c: &'static mut Cfg = Box::leak(Box::new(Cfg::new(seed, over)));
    report::settings(&c.used);
    let c = &mut *c;
    match prop {
        "C01" => c01_pre(c),
        "C02" => c02_pre(c),
        "C03" | "C30" => {
            c.fix("hole_pct", 10);
        }
        "C04" => {
            c.fix("customcx", (seed % 3 == 0) as i64);
        }
        "C06" => c06_pre(c),
        "C10" => {
            c.fix("hole_pct", 25);
        }
        "C13" | "C15" | "C16" | "C26" | "C27" | "C33" => {
            c.fix("hole_pct", 30);
        }
        "C08" => c08_pre(c),
        "C09" | "C12" => decouple(c, ""),
        "C11" => c11_pre(c),
        "C14" => {
            c.fix("hole_pct", 70);
            if c.flag("fewsimp", 75) {
                c.fix("mwsimplify", 0);
            }
            let st = if seed % 5 == 0 { 1 } else { 2 };
            c.fix("opstyle", st);
            // perfect fits under a frequency penalty that overflows
            if c.flag("crowd", 12) {
                for (k, v) in [("target", 7), ("scale", 2), ("adaptive", 0), ("usefreqt", 1), ("parsimony", 0), ("holes", 0)] {
                    c.fix(k, v);
                }
                let (m, p, t) = (c.range("maxsize", 2, 4), c.range("popsize", 24, 40), c.range("tourn", 21, 40));
                c.fix("maxsize", m);
                c.fix("popsize", p);
                c.fix("tourn", t);
            }
        }
        "C18" => {
            // a row is recognised by its values
            c.fix("target", (seed % 7) as i64);
            c.fix("batching", 1);
            c.fix("xscale", 0);
        }
        _ => {}
    }
    let sc = sched_cfg(&c, forced);
    // moves every later heap address
    let skew = c.get("heapskew", |r| r.below(64) as i64) as usize;
    for i in 0..skew % 8 {
        std::mem::forget(Vec::<u8>::with_capacity(16 + skew * 16 + i * 32));
    }
    sched::start(sc, seed);
    sys::ACTIVE.store(true, Ordering::Relaxed);
    let o = opf();
    o.hole_seed = seed;
    if c.get("hole_pct", |_| 0) > 0 {
        let pct = c.get("hole_pct", |_| 0) as u64;
        o.hole_pm = c.get("holes", |r| if r.below(100) < pct { *r.pick(&[1, 10, 50, 200, 600]) } else { 0 }) as u64;
    }
    let f32 = c.flag("f32", 25);
    let d3 = c.flag("d3", 50);
    #[cfg(feature = "wasm")]
    if prop == "C25" {
        match crate::scen_wasm::c25(c) {
            Ok(()) => report::finish("ok", "", ""),
            Err((k, m)) => report::violation(&k, &m),
        }
    }
    let outcome = match (f32, d3) {
        (false, false) => go::<f64, 2>(prop, &c),
        (false, true) => go::<f64, 3>(prop, &c),
        (true, false) => go::<f32, 2>(prop, &c),
        (true, true) => go::<f32, 3>(prop, &c),
    };
    let st = sched::quiet(|| opf().holes);
    probe("operator_nonfinite_results", st);
    let p = opf().panics;
    probe("operator_panics", p);
    match outcome {
        Ok(()) => report::finish("ok", "", ""),
        Err((k, m)) => report::violation(&k, &m),
    }
}

pub type Out = Result<(), (String, String)>;
pub fn bad<T>(class: &str, msg: impl Into<String>) -> Result<T, (String, String)> {
    Err((class.to_string(), msg.into()))
}
pub fn own(e: (&'static str, String)) -> (String, String) {
    (e.0.to_string(), e.1)
}

fn go<T: Flt, const D: usize>(prop: &str, c: &Cfg) -> Out {
    match prop {
        "C01" => crate::scen_par::c01::<T, D>(c),
        "C02" => crate::scen_par::c02::<T, D>(c),
        "C03" => results::<T, D>(c, Want { numbers: true, approx: false, constraints: false, front: false, finite: false }),
        "C04" => results::<T, D>(c, Want { numbers: false, approx: false, constraints: true, front: false, finite: false }),
        "C05" => results::<T, D>(c, Want { numbers: false, approx: false, constraints: false, front: true, finite: false }),
        "C06" => c06::<T, D>(c),
        "C07" => crate::scen_seq::c07::<T, D>(c),
        "C08" => crate::scen_par::c08::<T, D>(c),
        "C09" => crate::scen_par::c09::<T, D>(c),
        "C10" => crate::scen_seq::c10::<T, D>(c),
        "C11" => crate::scen_seq::c11::<T, D>(c),
        "C12" => crate::scen_par::c12::<T, D>(c),
        #[cfg(feature = "unit")]
        "C13" => crate::scen_unit::c13::<T, D>(c),
        "C14" => results::<T, D>(c, Want { numbers: false, approx: false, constraints: false, front: false, finite: true }),
        #[cfg(feature = "unit")]
        "C15" => crate::scen_unit::c15::<T, D>(c),
        #[cfg(feature = "unit")]
        "C16" => crate::scen_unit::c16::<T, D>(c),
        #[cfg(feature = "unit")]
        "C26" => crate::scen_unit::c26::<T, D>(c),
        #[cfg(feature = "unit")]
        "C27" => crate::scen_mut::c27::<T, D>(c),
        #[cfg(feature = "unit")]
        "C30" => crate::scen_eng::c30::<T, D>(c),
        #[cfg(feature = "unit")]
        "C31" => crate::scen_eng::c31::<T, D>(c),
        #[cfg(feature = "phases")]
        "C33" => crate::scen_iter::c33::<T, D>(c),
        "C17" => crate::scen_seq::c17::<T, D>(c),
        "C18" => crate::scen_seq::c18::<T, D>(c),
        _ => report::harness_error(&format!("unknown property {prop}")),
    }
}

// ---------------------------------------------------------------- configuration presets

/// Populations exchange nothing: results cannot depend on completion order.
pub fn decouple(c: &mut Cfg, tag: &str) {
    for (k, v) in [("migration", 0), ("hofmig", 0), ("usefreq", 0), ("usefreqt", 0), ("warmup", 0)] {
        c.fix(&format!("{tag}{k}"), v);
    }
}
fn c01_pre(c: &mut Cfg) {
    if c.flag("decoupled", 60) {
        decouple(c, "");
    }
}
fn c02_pre(c: &mut Cfg) {
    decouple(c, "");
}
fn c06_pre(c: &mut Cfg) {
    if c.flag("strong", 60) {
        // every evaluated candidate joins a population
        for (k, v) in [
            ("annealing", 0),
            ("usefreq", 0),
            ("optconst", 0),
            ("batching", 0),
            ("mwoptimize", 0),
            ("mwsimplify", 0),
            ("simplify", 0),
            ("warmup", 0),
            ("customcx", 0),
            ("arglim", 0),
            ("nestlim", 0),
            ("maxdepth", 30),
            ("baseline", 1),
        ] {
            c.fix(k, v);
        }
        // no child is replaced before its evolution cycle ends
        let t = c.pick("tourn_s", &[3, 5, 15]);
        c.fix("tourn", t);
        let m = c.pick("maxsize_s", &[20, 30]);
        c.fix("maxsize", m);
    }
}
fn c08_pre(_c: &mut Cfg) {}
fn c11_pre(c: &mut Cfg) {
    // long fronts and equations that take several lines of the display
    if c.flag("long", 8) {
        for (k, v) in [("scale", 2), ("maxsize", 30), ("maxdepth", 30), ("warmup", 0), ("parsimony", 0), ("iters", 6)] {
            c.fix(k, v);
        }
        for (k, v) in [("target", 4), ("rows", 22), ("loss", 0), ("optconst", 1), ("optprob", 2), ("optiters", 8), ("optcalls", 0)] {
            c.fix(k, v);
        }
        for (k, v) in [("tourn", 5), ("tournp", 0), ("mutw", 1), ("batching", 0), ("crossover", 1), ("punch", 0)] {
            c.fix(k, v);
        }
        let n = [c.range("pops_l", 2, 3), c.range("popsize_l", 25, 40), c.range("ncycles_l", 40, 100)];
        c.fix("pops", n[0]);
        c.fix("popsize", n[1]);
        c.fix("ncycles", n[2]);
    }
    if c.flag("parallel", 50) {
        decouple(c, "");
    }
}

// ---------------------------------------------------------------- helpers

pub fn pool(n: usize) -> &'static rayon::ThreadPool {
    let p = rayon::ThreadPoolBuilder::new()
        .num_threads(n)
        .spawn_handler(|t| {
            sched::spawn("worker", move || t.run());
            Ok(())
        })
        .build()
        .unwrap_or_else(|e| report::harness_error(&format!("pool: {e}")));
    Box::leak(Box::new(p))
}
pub fn global_pool(n: usize) {
    rayon::ThreadPoolBuilder::new()
        .num_threads(n)
        .spawn_handler(|t| {
            sched::spawn("worker", move || t.run());
            Ok(())
        })
        .build_global()
        .unwrap_or_else(|e| report::harness_error(&format!("global pool: {e}")));
}
pub fn search<T: Flt, const D: usize>(s: &Sess<T, D>) -> Res<T, D> {
    equation_search::<T, Ops<T>, D>(&s.data, &s.opt)
}
pub fn engine<T: Flt, const D: usize>(s: &Sess<T, D>) -> Eng<T, D> {
    SearchEngine::<T, Ops<T>, D>::new(s.data.clone(), s.opt.clone())
}
pub fn exact<T: Flt, const D: usize>(s: &Sess<T, D>) -> bool {
    s.opt.mutation_weights.simplify == 0.0
}
pub fn verify<T: Flt, const D: usize>(s: &Sess<T, D>, hall: &Hall<T, D>, best: &Member<T, D>, w: Want, at: &str) -> Out {
    sched::quiet(|| {
        let mut w = w;
        w.approx = w.approx || !exact(s);
        let spec: Spec<'_, T, D> = s.spec();
        oracle::check(&spec, hall, best, w).map_err(|(k, m)| (k.to_string(), format!("{at}: {m}")))
    })
}
/// How a parallel search is called.
pub enum Call {
    /// from outside any pool, on the global pool
    Outside,
    /// on a thread of the pool
    Inside,
}
pub fn place(c: &Cfg) -> (Call, usize) {
    let call = if c.flag("inside", 45) { Call::Inside } else { Call::Outside };
    let n = match call {
        Call::Outside => c.get("threads", |r| *r.pick(&[1, 2, 2, 3, 4, 6])),
        Call::Inside => c.get("threads", |r| *r.pick(&[2, 2, 3, 4, 6])).max(2),
    } as usize;
    (call, n)
}
pub enum Place {
    Global,
    Pool(&'static rayon::ThreadPool),
}
pub fn make_place(call: &Call, n: usize) -> Place {
    match call {
        Call::Outside => {
            global_pool(n);
            Place::Global
        }
        Call::Inside => Place::Pool(pool(n)),
    }
}
pub fn psearch<T: Flt, const D: usize>(s: &Sess<T, D>, p: &Place) -> Res<T, D> {
    match p {
        Place::Global => search(s),
        Place::Pool(p) => p.install(|| search(s)),
    }
}
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, u64> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => match p.downcast_ref::<SimFault>() {
            Some(f) => Err(f.0),
            None => Err(u64::MAX),
        },
    }
}
pub fn note_search<T: Flt, const D: usize>(s: &Sess<T, D>, hall: &Hall<T, D>) {
    let n = hall.best_by_complexity.iter().flatten().count() as u64;
    probe("hall_entries", n);
    probe("loss_evaluations", s.cell.log().calls);
    probe("loss_nonfinite_injected", s.cell.log().nans);
    if s.opt.batching {
        probe("runs_with_batching", 1);
    }
    if n > 0 {
        report::rep().nontrivial = true;
    }
    report::rep().runs += 1;
}

// ---------------------------------------------------------------- C03 C04 C05 C14

fn results<T: Flt, const D: usize>(c: &Cfg, w: Want) -> Out {
    let s = session::<T, D>(c, "");
    if w.finite {
        // the user's loss is NaN or infinite for some candidates
        let l = s.cell.log();
        l.nan_seed = c.seed;
        l.nan_pm = c.get("lossnan", |r| *r.pick(&[0, 0, 0, 0, 10, 100, 300])) as u64;
    }
    if c.flag("stepped", 65) {
        let mut e = engine(&s);
        verify(&s, e.hall_of_fame(), e.best(), w, "after construction")?;
        if w.finite {
            first_finite(&s, &e)?;
        }
        let mut r = c.rng("steps");
        while !e.is_finished() {
            let n = 1 + r.below(3) as usize;
            let before = w.constraints.then(|| (e.cycles_completed(), entries(&e)));
            e.step(n);
            if let Some((at, old)) = before {
                warm(&s, &e, at, &old)?;
            }
            verify(&s, e.hall_of_fame(), e.best(), w, &format!("after cycle {}", e.cycles_completed()))?;
            report::log(oracle::digest(e.hall_of_fame(), e.best()));
        }
        note_search(&s, e.hall_of_fame());
        if c.flag("finish", 30) {
            let r = e.run_to_completion();
            verify(&s, &r.hall_of_fame, &r.best, w, "at the end")?;
        }
    } else {
        let (call, n) = place(c);
        let p = make_place(&call, n);
        let r = psearch(&s, &p);
        verify(&s, &r.hall_of_fame, &r.best, w, "result of the one-shot search")?;
        report::log(oracle::digest(&r.hall_of_fame, &r.best));
        note_search(&s, &r.hall_of_fame);
    }
    Ok(())
}
/// Everything shown: complexity, equation.
fn entries<T: Flt, const D: usize>(e: &Eng<T, D>) -> Vec<(usize, String)> {
    e.hall_of_fame().members().chain([e.best()]).map(|m| (m.complexity, oracle::show_expr(m))).collect()
}
/// While the size limit warms up nothing larger than the limit of the cycle enters.
fn warm<T: Flt, const D: usize>(s: &Sess<T, D>, e: &Eng<T, D>, from: usize, old: &[(usize, String)]) -> Out {
    let (by, max) = (s.opt.warmup_maxsize_by as f64, s.opt.maxsize);
    // the last of the cycles done has the highest limit
    let part = (e.cycles_completed() - 1) as f64 / e.total_cycles() as f64;
    if by <= 0.0 || part > by * (1.0 - 1e-5) || e.cycles_completed() == from {
        return Ok(());
    }
    let start = max.min(3);
    let limit = start + ((max - start) as f64 * part / by + 1e-4).floor() as usize;
    probe("warm_up_steps", 1);
    match entries(e).iter().find(|x| x.0 > limit && !old.contains(x)) {
        Some(x) => bad("warm-up", format!("cycles {from} to {}: [{}] of complexity {} entered while the size limit was {limit} of {max}", e.cycles_completed(), x.1, x.0)),
        None => Ok(()),
    }
}
/// A finite candidate of the initial populations (no constraint can exclude it) makes the best equation finite.
fn first_finite<T: Flt, const D: usize>(s: &Sess<T, D>, e: &Eng<T, D>) -> Out {
    let o = &s.opt;
    if o.maxsize >= 20 && o.maxdepth >= 30 && o.uses_default_complexity() && o.op_constraints.limits.is_empty() && o.nested_constraints.limits.is_empty() {
        if let Some(m) = s.cell.log().min_full {
            if !e.best().loss.is_finite() {
                return bad("finite", format!("a candidate with loss {m:e} was evaluated but the best equation has loss {:?}", e.best().loss));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

fn c06<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let s = session::<T, D>(c, "");
    let strong = c.flag("strong", 60);
    if c.flag("stepped", 60) {
        let mut e = engine(&s);
        let mut prev: Vec<Option<f64>> = snap(e.hall_of_fame());
        let mut best = e.best().loss.to64();
        let mut settled = feasible(&s, e.best());
        let mut r = c.rng("steps");
        while !e.is_finished() {
            e.step(1 + r.below(2) as usize);
            let now = snap(e.hall_of_fame());
            for (i, (a, b)) in prev.iter().zip(&now).enumerate() {
                if let Some(a) = a {
                    match b {
                        None => return bad("lost", format!("cycle {}: entry of complexity {i} disappeared", e.cycles_completed())),
                        Some(b) if b > a => {
                            return bad("worse", format!("cycle {}: cost at complexity {i} rose from {a:e} to {b:e}", e.cycles_completed()))
                        }
                        _ => {}
                    }
                }
            }
            let b = e.best().loss.to64();
            if settled && (b > best || b.is_nan()) {
                return bad("best-worse", format!("cycle {}: best loss rose from {best:e} to {b:e}", e.cycles_completed()));
            }
            settled = settled || feasible(&s, e.best());
            best = b;
            prev = now;
            report::log(oracle::digest(e.hall_of_fame(), e.best()));
        }
        note_search(&s, e.hall_of_fame());
        if strong {
            minimum(&s, e.hall_of_fame(), e.best())?;
        }
    } else {
        let (call, n) = place(c);
        let p = make_place(&call, n);
        let r = psearch(&s, &p);
        report::log(oracle::digest(&r.hall_of_fame, &r.best));
        note_search(&s, &r.hall_of_fame);
        if strong {
            minimum(&s, &r.hall_of_fame, &r.best)?;
        }
    }
    Ok(())
}
fn feasible<T: Flt, const D: usize>(s: &Sess<T, D>, m: &Member<T, D>) -> bool {
    sched::quiet(|| {
        let sp = s.spec();
        sp.tree(m).is_ok_and(|t| sp.constraints(&t, s.opt.maxsize).is_ok())
    })
}
fn snap<T: Flt, const D: usize>(h: &Hall<T, D>) -> Vec<Option<f64>> {
    h.best_by_complexity.iter().map(|m| m.as_ref().map(|m| m.cost.to64())).collect()
}
/// Every candidate that was evaluated joined a population, so the lowest loss seen anywhere must be reported.
fn minimum<T: Flt, const D: usize>(s: &Sess<T, D>, hall: &Hall<T, D>, best: &Member<T, D>) -> Out {
    let Some(min) = s.cell.log().min_full else { return Ok(()) };
    probe("lowest_loss_checked", 1);
    // slots keep the lower cost: costs that are equal after rounding may hide a loss difference
    let sp = s.spec();
    let tol = 64.0 * oracle::eps_of::<T>() * (min.abs() + s.opt.parsimony * (1 + s.opt.maxsize) as f64 * sp.denom());
    let b = best.loss.to64();
    if !(b <= min + tol) && b != min || b < min {
        return bad("lost-best", format!("a candidate evaluated to loss {min:e} but the best equation reports {b:e}"));
    }
    let h = hall.best_by_complexity.iter().flatten().map(|m| m.loss.to64()).fold(f64::INFINITY, f64::min);
    if h > min + tol {
        return bad("lost-hall", format!("a candidate evaluated to loss {min:e} but the hall of fame's lowest is {h:e}"));
    }
    Ok(())
}
