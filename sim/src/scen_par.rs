//! One-shot (parallel) searches: termination, crashes, schedule independence, concurrency.
use crate::cfg::Cfg;
use crate::ops::{opf, Flt, FAULT_LOSS, FAULT_OP};
use crate::oracle;
use crate::report::{self, probe};
use crate::scen::*;
use crate::sched;
use crate::setup::{session, Sess};
use std::cell::UnsafeCell;

/// Result cell of one simulated thread; accesses are serialised by the scheduler.
pub struct Slot<V>(UnsafeCell<Option<V>>);
unsafe impl<V> Sync for Slot<V> {}
unsafe impl<V> Send for Slot<V> {}
impl<V> Slot<V> {
    pub fn new() -> &'static Slot<V> {
        Box::leak(Box::new(Slot(UnsafeCell::new(None))))
    }
    pub fn put(&self, v: V) {
        unsafe { *self.0.get() = Some(v) }
    }
    pub fn take(&self) -> Option<V> {
        unsafe { (*self.0.get()).take() }
    }
}
pub type Shape = Vec<(usize, u64, u64, f64)>;
/// complexity -> (cost, loss); which of several equally good equations holds a slot may depend on the order.
pub fn shape<T: Flt, const D: usize>(r: &Res<T, D>) -> Shape {
    shape_of(&r.hall_of_fame, &r.best)
}
pub fn shape_of<T: Flt, const D: usize>(h: &oracle::Hall<T, D>, b: &oracle::Member<T, D>) -> Shape {
    let mut v: Shape = h.best_by_complexity.iter().flatten().map(|m| (m.complexity, m.cost.bits(), 0, m.loss.to64())).collect();
    v.push((0, b.loss.bits(), 1, b.loss.to64()));
    v
}
pub fn same_shape<T: Flt, const D: usize>(s: &Sess<T, D>, a: &Shape, b: &Shape) -> Result<(), String> {
    let f = |s: &Shape| s.iter().map(|x| format!("{}:{:e}", x.0, x.3)).collect::<Vec<_>>().join(" ");
    // a slot keeps the lower cost: equal costs may hide a difference of losses below the rounding of the cost
    let hidden = s.opt.parsimony * (1 + s.opt.maxsize) as f64 * sched::quiet(|| s.spec().denom());
    let tol = 64.0 * oracle::eps_of::<T>();
    let ok = a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.0 == y.0
                && (x.2 == 1 || x.1 == y.1)
                && (x.3 == y.3 || x.3.is_nan() && y.3.is_nan() || (x.3 - y.3).abs() <= tol * (x.3.abs() + y.3.abs() + hidden))
        });
    if ok {
        Ok(())
    } else {
        Err(format!("[{}] versus [{}]", f(a), f(b)))
    }
}

// ---------------------------------------------------------------- C01

fn sorted(v: &[(usize, u64)]) -> Vec<(usize, u64)> {
    let mut v = v.to_vec();
    v.sort_unstable();
    v
}

pub fn c01<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let s0 = session::<T, D>(c, "");
    let mut s = s0;
    if c.flag("zeroiters", 3) {
        s.opt.niterations = 0;
    }
    let decoupled = c.flag("decoupled", 60);
    let mode = c.pick("mode", &[0, 0, 1, 1, 2, 3]);
    // reference: the same search stepped sequentially
    let r = s.fresh();
    r.cell.log().record = true;
    let before = opf().evals;
    let mut e = engine(&r);
    while e.step(3) > 0 {}
    let want_evals = opf().evals - before;
    let want = sorted(&r.cell.log().values);
    let (call, n) = match mode {
        0 | 2 => (Call::Outside, c.get("threads", |r| *r.pick(&[1, 2, 2, 3, 4, 6, 8])) as usize),
        _ => (Call::Inside, c.get("threads", |r| *r.pick(&[2, 2, 3, 4, 6, 8])).max(2) as usize),
    };
    let k = if mode >= 2 { c.range("searches", 2, 3) as usize } else { 1 };
    let p = make_place(&call, n);
    let ss: Vec<&'static Sess<T, D>> = (0..k)
        .map(|_| {
            let f = s.fresh();
            f.cell.log().record = true;
            &*Box::leak(Box::new(f))
        })
        .collect();
    let before = opf().evals;
    match (mode, &p) {
        (2, _) => {
            let ids: Vec<usize> = ss
                .iter()
                .map(|f| {
                    let f = *f;
                    sched::spawn("caller", move || {
                        std::mem::forget(search(f));
                    })
                })
                .collect();
            for i in ids {
                sched::join(i);
            }
        }
        (3, Place::Pool(pool)) => pool.install(|| {
            rayon::scope(|sc| {
                for f in &ss {
                    sc.spawn(move |_| std::mem::forget(search(f)));
                }
            })
        }),
        _ => {
            std::mem::forget(psearch(ss[0], &p));
        }
    }
    let evals = opf().evals - before;
    probe("parallel_searches", k as u64);
    for f in &ss {
        let l = f.cell.log();
        if decoupled {
            let got = sorted(&l.values);
            if l.calls != r.cell.log().calls {
                return bad("count", format!("{} candidate evaluations, the stepped search makes {}", l.calls, r.cell.log().calls));
            }
            if got != want {
                return bad("history", "the multiset of evaluated losses differs from the stepped search's".to_string());
            }
        }
        report::rep().runs += 1;
    }
    if decoupled && evals != want_evals * k as u64 {
        return bad("count", format!("{evals} operator evaluations, the stepped search makes {}", want_evals * k as u64));
    }
    if !decoupled && c.flag("bound", 50) {
        let o = &s.opt;
        let fin = o.operators.ops_by_arity.iter().flatten().all(|op| {
            ["add", "sub", "mul"].contains(&<crate::setup::Ops<T> as dynamic_expressions::OperatorSet>::meta(*op).unwrap().name)
        });
        if fin && !o.should_simplify && o.mutation_weights.simplify == 0.0 {
            for f in &ss {
                let l = f.cell.log();
                let lo = (o.populations * o.population_size * (1 + o.niterations)) as u64;
                if l.calls + opf().fails < lo {
                    return bad("count", format!("only {} candidate evaluations, {lo} are needed", l.calls));
                }
                probe("coupled_bounds_checked", 1);
            }
        }
    }
    report::rep().nontrivial = k > 0 && want.len() > 1;
    report::log(evals);
    report::log(want.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C02

pub fn c02<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let s = session::<T, D>(c, "");
    let r = s.fresh();
    let b = {
        let f = opf();
        f.evals + f.diffs + f.grads
    };
    let mut e = engine(&r);
    while e.step(3) > 0 {}
    let ops = {
        let f = opf();
        f.evals + f.diffs + f.grads - b
    };
    let losses = r.cell.log().calls;
    let want = shape_of(e.hall_of_fame(), e.best());
    let (call, n) = place(c);
    let p = make_place(&call, n);
    if losses + ops == 0 {
        // nothing could be evaluated (constraints nothing satisfies): no candidate to crash in
        return Ok(());
    }
    let in_loss = losses > 0 && (c.flag("inloss", 50) || ops == 0);
    let total = if in_loss { losses } else { ops };
    let at = c.get("at", |r| r.below(1 << 30) as i64) as u64 % total.max(1);
    let f = s.fresh();
    opf().garbage = c.flag("garbage", 50);
    let again = c.get("again", |r| *r.pick(&[-1, -1, 0, 1, 5, 40]));
    opf().again = if again >= 0 { Some(again as u64) } else { None };
    if in_loss {
        f.cell.log().panic_in = Some(at);
        f.cell.log().again = opf().again;
    } else {
        opf().panic_in = Some(at);
    }
    let out = caught(|| psearch(&f, &p));
    opf().panic_in = None;
    opf().again = None;
    let fired = if in_loss { f.cell.log().panics } else { opf().panics };
    probe("loss_panics", f.cell.log().panics);
    match out {
        Ok(_) => {
            return bad(
                "swallowed",
                format!("the search returned a result although {} panicked", if in_loss { "a candidate evaluation" } else { "an operator" }),
            )
        }
        Err(x) => {
            let wanted = if in_loss { FAULT_LOSS } else { FAULT_OP };
            if x != wanted {
                return bad("payload", format!("the caller got another panic payload (code {x})"));
            }
        }
    }
    if fired == 0 {
        return bad("count", "the injected panic point was never reached".to_string());
    }
    report::rep().nontrivial = true;
    report::log(fired);
    // the pool still works
    let g = s.fresh();
    let r2 = psearch(&g, &p);
    if let Err(m) = same_shape(&s, &want, &shape(&r2)) {
        return bad("later", format!("a search after the crash gave another result: {m}"));
    }
    note_search(&s, &r2.hall_of_fame);
    report::log(oracle::digest(&r2.hall_of_fame, &r2.best));
    std::mem::forget(r2);
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn c08<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    let r = s.fresh();
    let (call, n) = match c.pick("one", &[0, 1, 2, 3]) {
        0 => (Call::Outside, 1),
        1 => (Call::Inside, 2),
        2 => {
            s.opt.populations = 1;
            (Call::Outside, c.range("threads", 1, 5) as usize)
        }
        _ => {
            s.opt.populations = 1;
            (Call::Inside, c.range("threads", 2, 5) as usize)
        }
    };
    let r = if s.opt.populations == 1 { s.fresh() } else { r };
    let mut e = engine(&r);
    let mut q = c.rng("steps");
    while !e.is_finished() {
        e.step(1 + q.below(4) as usize);
    }
    let want = oracle::digest(e.hall_of_fame(), e.best());
    let p = make_place(&call, n);
    let f = s.fresh();
    let out = psearch(&f, &p);
    let got = oracle::digest(&out.hall_of_fame, &out.best);
    note_search(&f, &out.hall_of_fame);
    report::log(got);
    if got != want {
        let a = shape_of(e.hall_of_fame(), e.best());
        let m = same_shape(&s, &a, &shape(&out)).err().unwrap_or("identifiers, birth or expressions differ".into());
        return bad("differs", format!("stepped and one-shot search differ: {m}"));
    }
    if f.cell.log().calls != r.cell.log().calls {
        return bad("count", format!("{} evaluations, stepped search {}", f.cell.log().calls, r.cell.log().calls));
    }
    std::mem::forget(out);
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn c09<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let s = session::<T, D>(c, "");
    let r = s.fresh();
    let mut e = engine(&r);
    while e.step(2) > 0 {}
    let want = shape_of(e.hall_of_fame(), e.best());
    let (call, n) = place(c);
    let p = make_place(&call, n);
    let mut prev = Vec::new();
    for i in 0..c.range("repeat", 1, 2) {
        let f = s.fresh();
        let out = psearch(&f, &p);
        let got = shape(&out);
        note_search(&f, &out.hall_of_fame);
        if let Err(m) = same_shape(&s, &want, &got) {
            return bad("differs", format!("run {i}: stepped versus one-shot with {n} threads: {m}"));
        }
        prev.push(oracle::digest(&out.hall_of_fame, &out.best));
        std::mem::forget(out);
    }
    report::log(prev[0]);
    if c.flag("other", 40) {
        // a second pool of another size, called from inside it
        let m = 2 + c.get("threads2", |r| r.below(4) as i64) as usize;
        let q = pool(m);
        let f = s.fresh();
        let out = q.install(|| search(&f));
        if let Err(x) = same_shape(&s, &want, &shape(&out)) {
            return bad("differs", format!("stepped versus one-shot inside a pool of {m}: {x}"));
        }
        note_search(&f, &out.hall_of_fame);
        std::mem::forget(out);
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

pub fn c12<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let k = c.range("searches", 2, 4) as usize;
    let mode = c.range("mode", 0, 4);
    let n = c.get("threads", |r| *r.pick(&[2, 2, 3, 4, 6])).max(2) as usize;
    let tags = ["", "b", "c", "d"];
    let mut ss: Vec<&'static Sess<T, D>> = Vec::new();
    let mut want = Vec::new();
    for t in &tags[..k] {
        let mut s = session::<T, D>(c, t);
        // independent of completion order, or a single population
        if c.flag(&format!("{t}single"), 25) {
            s.opt.populations = 1;
        } else {
            s.opt.migration = false;
            s.opt.hof_migration = false;
            s.opt.use_frequency = false;
            s.opt.use_frequency_in_tournament = false;
            s.opt.warmup_maxsize_by = 0.0;
        }
        let r = s.fresh();
        let mut e = engine(&r);
        while e.step(2) > 0 {}
        want.push((shape_of(e.hall_of_fame(), e.best()), oracle::digest(e.hall_of_fame(), e.best()), s.opt.populations == 1, r.cell.log().calls));
        ss.push(Box::leak(Box::new(s)));
    }
    let slots: Vec<&'static Slot<Res<T, D>>> = (0..k).map(|_| Slot::new()).collect();
    let jobs: Vec<(&'static Sess<T, D>, &'static Slot<Res<T, D>>)> = ss.iter().copied().zip(slots.iter().copied()).collect();
    fn run_engine<T: Flt, const D: usize>(s: &'static Sess<T, D>) -> Res<T, D> {
        let mut e = engine(s);
        e.step(1);
        e.run_to_completion()
    }
    match mode {
        // separate threads on the shared global pool
        0 => {
            global_pool(n);
            let ids: Vec<usize> =
                jobs.iter().map(|&(s, o)| sched::spawn("caller", move || o.put(search(s)))).collect();
            ids.into_iter().for_each(sched::join);
        }
        // all from inside one pool
        1 => {
            pool(n).install(|| {
                rayon::scope(|sc| {
                    for &(s, o) in &jobs {
                        sc.spawn(move |_| o.put(search(s)));
                    }
                })
            });
        }
        // nested fork-join inside one pool
        2 => {
            pool(n).install(|| {
                fn go<T: Flt, const D: usize>(j: &[(&'static Sess<T, D>, &'static Slot<Res<T, D>>)]) {
                    match j {
                        [] => {}
                        [(s, o)] => o.put(search(s)),
                        _ => {
                            let (a, b) = j.split_at(j.len() / 2);
                            rayon::join(|| go(a), || go(b));
                        }
                    }
                }
                go(&jobs)
            });
        }
        // stepped searches beside one-shot searches
        3 => {
            global_pool(n);
            let ids: Vec<usize> = jobs
                .iter()
                .enumerate()
                .map(|(i, &(s, o))| {
                    sched::spawn("caller", move || o.put(if i % 2 == 0 { run_engine(s) } else { search(s) }))
                })
                .collect();
            ids.into_iter().for_each(sched::join);
        }
        // callers from outside and from inside the same pool
        _ => {
            let p = pool(n);
            let ids: Vec<usize> = jobs
                .iter()
                .map(|&(s, o)| sched::spawn("caller", move || o.put(p.install(|| search(s)))))
                .collect();
            ids.into_iter().for_each(sched::join);
        }
    }
    probe("concurrent_searches", k as u64);
    for i in 0..k {
        let Some(r) = slots[i].take() else { return bad("lost", format!("search {i} of {k} gave no result")) };
        note_search(ss[i], &r.hall_of_fame);
        if let Err(m) = same_shape(&ss[i], &want[i].0, &shape(&r)) {
            return bad("differs", format!("search {i} of {k} differs from the same search alone: {m}"));
        }
        let d = oracle::digest(&r.hall_of_fame, &r.best);
        if want[i].2 && d != want[i].1 {
            return bad("differs", format!("search {i} of {k} (one population) is not identical to the same search alone"));
        }
        if ss[i].cell.log().calls != want[i].3 {
            return bad("count", format!("search {i}: {} evaluations, alone {}", ss[i].cell.log().calls, want[i].3));
        }
        report::log(d);
        std::mem::forget(r);
    }
    Ok(())
}
