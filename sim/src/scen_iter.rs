//! The two phases of an iteration (C33): rounds of evolution, then simplification, tuning and evaluation of every member.
use crate::cfg::Cfg;
use crate::ops::Flt;
use crate::oracle::{self, digest_member, Member};
use crate::report::{self, probe};
use crate::rng::{Fnv, R};
use crate::scen::*;
use crate::scen_unit::{expr, xlog, RARE};
use crate::sched;
use crate::setup::{session, Ops, Sess};
use dynamic_expressions::GradContext;
use symbolic_regression::{
    optimize_and_simplify_population, optimize_constants, reg_evol_cycle, s_r_cycle, Dataset, Evaluator, IterationCtx, MemberId,
    OptimizeConstantsCtx, PopMember, Population, RegEvolCtx, RunningSearchStatistics, TaggedDataset,
};

fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (a.abs() + b.abs())
}
/// Equal up to the rounding of a temperature.
fn alike<T: Flt, const D: usize>(a: &Member<T, D>, b: &Member<T, D>, tol: f64) -> bool {
    a.id == b.id
        && a.parent == b.parent
        && a.birth == b.birth
        && a.complexity == b.complexity
        && a.expr.nodes == b.expr.nodes
        && a.expr.consts.len() == b.expr.consts.len()
        && a.expr.consts.iter().zip(&b.expr.consts).all(|(x, y)| near(x.to64(), y.to64(), tol))
        && near(a.loss.to64(), b.loss.to64(), tol)
        && near(a.cost.to64(), b.cost.to64(), tol)
}
fn dig<T: Flt, const D: usize>(m: &Member<T, D>) -> u64 {
    let mut h = Fnv::default();
    digest_member(&mut h, m);
    h.0
}

struct Stamps {
    id: u64,
    birth: u64,
}

fn populate<T: Flt, const D: usize>(s: &Sess<T, D>, r: &mut R, size: usize, tagged: TaggedDataset<'_, T>, st: &mut Stamps) -> Vec<Member<T, D>> {
    let mut evr: Evaluator<T, D> = Evaluator::new(s.data.n_rows);
    (0..size)
        .map(|_| {
            let e = expr(s, r, s.opt.maxsize.max(2) as u64, s.data.n_features);
            let mut m: Member<T, D> = PopMember::from_expr(MemberId(st.id), None, st.birth, e, s.data.n_features);
            st.id += 1;
            st.birth += 1;
            m.evaluate(&tagged, &s.opt, &mut evr);
            m
        })
        .collect()
}

pub fn c33<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    s.opt.should_simplify = c.flag("simp33", 50);
    s.opt.should_optimize_constants = c.flag("opt33", 75);
    s.opt.optimizer_probability = [0.0, 0.1, 0.3, 0.6, 1.0][c.range("optp33", 0, 4) as usize];
    s.opt.optimizer_nrestarts = 0;
    s.opt.optimizer_iterations = c.range("optiters33", 1, 6) as usize;
    s.opt.ncycles_per_iteration = c.range("rounds", 0, 9) as usize;
    s.opt.annealing = c.flag("annealing33", 60);
    s.opt.tournament_selection_n = c.pick("tourn33", &[1, 2, 3, 8]) as usize;
    let base = s.spec().baseline().map(T::from64);
    let mut r = c.rng("unit");
    let full = TaggedDataset::new(&s.data, base);
    let n = s.data.n_rows;
    let mut rng = fastrand::Rng::with_seed(r.next());
    let mut evr: Evaluator<T, D> = Evaluator::new(n);
    let mut grad: GradContext<T, D> = GradContext::new(n);
    let mut st = Stamps { id: 1u64 << 33, birth: 50 };
    let size = c.pick("members", &[1, 2, 3, 5, 8, 13, 25, 60]) as usize;
    let mut buf: Option<Dataset<T>> = c.flag("batch33", 35).then(|| Dataset::make_batch_buffer(&s.data, c.range("batchrows", 1, 20) as usize));
    let mut stats = RunningSearchStatistics::new(s.opt.maxsize, 1000);
    let mut pop = Population::new(populate(&s, &mut r, size, full, &mut st));
    let (mut tuned, mut due) = (0.0, 0.0);
    for k in 0..c.range("iterations33", 1, 12) {
        if r.below(3) == 0 {
            pop = Population::new(populate(&s, &mut r, size, full, &mut st));
        }
        stats.update_from_population(pop.members.iter().map(|m| m.complexity));
        stats.move_window();
        stats.normalize();
        let cms = if r.below(4) == 0 { 1 + r.below(s.opt.maxsize as u64) as usize } else { s.opt.maxsize };
        for phase in 0..2 {
            if let Some(b) = &mut buf {
                b.resample_from(&s.data, &mut rng);
            }
            let eval = match &buf {
                Some(b) => TaggedDataset::new(b, base),
                None => full,
            };
            let mut pair = (&mut rng, &mut evr, &mut grad);
            if phase == 0 {
                rounds(&s, &mut pop, &mut pair, full, eval, cms, &stats, &mut st, k)?;
            } else {
                let (a, b) = finish(&s, &mut pop, &mut pair, full, eval, cms, &stats, &mut st, k)?;
                tuned += a;
                due += b;
            }
        }
        report::log(pop.members.iter().fold(k as u64, |a, m| a.rotate_left(9) ^ dig(m)));
    }
    if due > 0.0 && xlog(tuned, due) - tuned + due > RARE {
        return bad("probability", format!("the constants of {tuned} members were tuned where {due:.1} were to be expected"));
    }
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    Ok(())
}

type Tools<'a, T, const D: usize> = (&'a mut fastrand::Rng, &'a mut Evaluator<T, D>, &'a mut GradContext<T, D>);

/// Rounds of evolution against a loop over single rounds at the temperatures the options ask for.
#[allow(clippy::too_many_arguments)]
fn rounds<T: Flt, const D: usize>(
    s: &Sess<T, D>, pop: &mut Population<T, Ops<T>, D>, tools: &mut Tools<'_, T, D>, full: TaggedDataset<'_, T>, eval: TaggedDataset<'_, T>,
    cms: usize, stats: &RunningSearchStatistics, st: &mut Stamps, k: i64,
) -> Out {
    let tol = if std::mem::size_of::<T>() == 4 { 1e-3 } else { 1e-8 };
    let o = &s.opt;
    let mut twin = Population::new(pop.members.clone());
    let mut rng2 = tools.0.clone();
    let (id0, size) = (st.id, pop.len());
    let (mut id2, mut birth2) = (st.id, st.birth);
    let n = o.ncycles_per_iteration.max(1);
    // the cheapest of each complexity that was ever in the population
    let mut seen: Vec<Vec<Member<T, D>>> = vec![Vec::new(); o.maxsize + 1];
    let sp = s.spec();
    let mut look = |p: &Population<T, Ops<T>, D>| -> Out {
        for m in &p.members {
            let t = sp.tree(m).or_else(|e| bad("malformed", e))?;
            if m.complexity == 0 || m.complexity > o.maxsize || sp.constraints(&t, cms).is_err() {
                continue;
            }
            let v = &mut seen[m.complexity];
            match v.first() {
                Some(b) if b.cost < m.cost => (),
                Some(b) if b.cost == m.cost => v.push(m.clone()),
                _ => *v = vec![m.clone()],
            }
        }
        Ok(())
    };
    sched::quiet(|| -> Out {
        let mut evr2: Evaluator<T, D> = Evaluator::new(eval.n_rows);
        look(&twin)?;
        for i in 0..n {
            let temperature = if o.annealing && n > 1 { 1.0 - i as f64 / (n - 1) as f64 } else { 1.0 };
            reg_evol_cycle(
                &mut twin,
                RegEvolCtx {
                    rng: &mut rng2,
                    dataset: eval,
                    temperature,
                    curmaxsize: cms,
                    stats,
                    options: o,
                    evaluator: &mut evr2,
                    next_id: &mut id2,
                    next_birth: &mut birth2,
                    _ops: core::marker::PhantomData::<Ops<T>>,
                },
            );
            look(&twin)?;
        }
        Ok(())
    })?;
    let (_, best) = s_r_cycle(
        pop,
        &mut IterationCtx {
            rng: tools.0,
            full_dataset: full,
            curmaxsize: cms,
            stats,
            options: o,
            evaluator: tools.1,
            grad_ctx: tools.2,
            next_id: &mut st.id,
            next_birth: &mut st.birth,
            _ops: core::marker::PhantomData::<Ops<T>>,
        },
        eval,
    );
    let say = |x: String| format!("iteration {k} ({n} rounds, annealing={}, {size} members): {x}", o.annealing);
    if pop.len() != size {
        return bad("size", say(format!("the population has {} members now", pop.len())));
    }
    if o.crossover_probability <= 0.0 {
        let per = size.div_ceil(o.tournament_selection_n);
        if st.id - id0 != (n * per) as u64 {
            return bad("rounds", say(format!("{} children were made, {n} rounds of {per} were to be expected", st.id - id0)));
        }
    }
    if st.id != id2 || st.birth != birth2 {
        return bad("rounds", say(format!("identifiers up to {} and births up to {}, single rounds use {id2} and {birth2}", st.id, st.birth)));
    }
    if let Some(i) = (0..size).find(|&i| !alike(&pop.members[i], &twin.members[i], tol)) {
        let show = |m: &Member<T, D>| format!("#{} [{}] loss {:e}", m.id.0, oracle::show_expr(m), m.loss.to64());
        return bad("rounds", say(format!("member {i} is {}, after single rounds {}", show(&pop.members[i]), show(&twin.members[i]))));
    }
    for (cx, want) in seen.iter().enumerate() {
        let got = best.best_by_complexity.get(cx).and_then(|m| m.as_ref());
        let fine = match got {
            None => want.is_empty(),
            Some(m) => m.complexity == cx && want.iter().any(|w| w.expr.nodes == m.expr.nodes && near(w.cost.to64(), m.cost.to64(), tol) && near(w.loss.to64(), m.loss.to64(), tol)),
        };
        if !fine {
            let show = |m: Option<&Member<T, D>>| m.map_or("none".into(), |m| format!("[{}] at cost {:e}", oracle::show_expr(m), m.cost.to64()));
            return bad("seen", say(format!("the best member of complexity {cx} reported is {}, the best in the population was {}", show(got), show(want.first()))));
        }
    }
    probe("rounds_compared", n as u64);
    Ok(())
}

/// Every member simplified, tuned with the configured probability, and evaluated on the full data.
#[allow(clippy::too_many_arguments)]
fn finish<T: Flt, const D: usize>(
    s: &Sess<T, D>, pop: &mut Population<T, Ops<T>, D>, tools: &mut Tools<'_, T, D>, full: TaggedDataset<'_, T>, eval: TaggedDataset<'_, T>,
    cms: usize, stats: &RunningSearchStatistics, st: &mut Stamps, k: i64,
) -> Result<(f64, f64), (String, String)> {
    let o = &s.opt;
    let old = pop.members.clone();
    let (id0, b0) = (st.id, st.birth);
    optimize_and_simplify_population(
        pop,
        &mut IterationCtx {
            rng: tools.0,
            full_dataset: full,
            curmaxsize: cms,
            stats,
            options: o,
            evaluator: tools.1,
            grad_ctx: tools.2,
            next_id: &mut st.id,
            next_birth: &mut st.birth,
            _ops: core::marker::PhantomData::<Ops<T>>,
        },
        eval,
    );
    let what = |x: String| format!("iteration {k} (simplify={}, optimise={}, probability {}, {} members): {x}", o.should_simplify, o.should_optimize_constants, o.optimizer_probability, old.len());
    if pop.len() != old.len() {
        return Err(("size".into(), what(format!("the population has {} members now", pop.len()))));
    }
    let p = if o.should_optimize_constants { o.optimizer_probability.clamp(0.0, 1.0) } else { 0.0 };
    let (mut tuned, mut due) = (0.0, 0.0);
    let mut ids: Vec<u64> = Vec::new();
    for (i, (m, before)) in pop.members.iter().zip(&old).enumerate() {
        let say = |x: String| what(format!("member {i} #{} [{}] -> #{} [{}]: {x}", before.id.0, oracle::show_expr(before), m.id.0, oracle::show_expr(m)));
        // what simplification alone gives, and what tuning would make of it
        let (simple, better) = sched::quiet(|| {
            let mut e = before.clone();
            if o.should_simplify && dynamic_expressions::simplify_in_place(&mut e.expr, &Evaluator::<T, D>::new(1).eval_opts) {
                e.rebuild_plan(s.data.n_features);
            }
            let mut t = e.clone();
            let ok = p > 0.0
                && optimize_constants(
                    &mut fastrand::Rng::with_seed(1),
                    &mut t,
                    OptimizeConstantsCtx {
                        dataset: eval,
                        options: o,
                        evaluator: &mut Evaluator::new(eval.n_rows),
                        grad_ctx: &mut GradContext::new(eval.n_rows),
                        next_birth: &mut 0,
                    },
                )
                .0;
            (e, ok.then_some(t))
        });
        if m.expr.nodes != simple.expr.nodes || m.expr.consts.len() != simple.expr.consts.len() {
            return Err(("structure".into(), say(format!("simplification alone gives [{}]", oracle::show_expr(&simple)))));
        }
        let simplified = !oracle::same_expr(&simple, before);
        let moved = !oracle::same_expr(m, &simple);
        if moved && better.is_none() {
            return Err(("tuned".into(), say("its constants changed although tuning cannot improve it".into())));
        }
        if moved != (m.birth != before.birth) || (moved && (m.birth < b0 || m.birth >= st.birth)) {
            return Err(("birth".into(), say(format!("birth {} -> {}, stamps {b0}..{}", before.birth, m.birth, st.birth))));
        }
        if let Some(t) = &better {
            due += p;
            tuned += moved as u64 as f64;
            if moved && !near(m.expr.consts.iter().map(|c| c.to64()).sum(), t.expr.consts.iter().map(|c| c.to64()).sum(), 1e-3) && eval.n_rows == full.n_rows {
                // another optimum is as good if it is better than the start
                let mut f = simple.clone();
                sched::quiet(|| f.evaluate(&full, o, &mut Evaluator::new(full.n_rows)));
                if !(m.loss < f.loss) {
                    return Err(("worse".into(), say(format!("tuning moved the loss from {:e} to {:e}", f.loss.to64(), m.loss.to64()))));
                }
            }
            if p >= 1.0 && !moved {
                return Err(("probability".into(), say("its constants were not tuned although the probability is one".into())));
            }
        }
        if simplified || moved {
            let parent = m.parent.is_some_and(|p| p == before.id || (simplified && moved && p.0 >= id0 && p.0 < st.id));
            if m.id.0 < id0 || m.id.0 >= st.id || ids.contains(&m.id.0) || !parent {
                return Err(("id".into(), say(format!("a changed equation with parent {:?}, identifiers {id0}..{}", m.parent, st.id))));
            }
            ids.push(m.id.0);
        } else if oracle::same_expr(m, before) && (m.id != before.id && (m.id.0 < id0 || m.id.0 >= st.id)) {
            return Err(("id".into(), say("an unchanged equation has an identifier of something else".into())));
        }
        sched::quiet(|| s.spec().numbers(m, false)).map_err(|(c, e)| (c.to_string(), say(e)))?;
        if m.plan.instrs.len() != simple.plan.instrs.len() {
            return Err(("plan".into(), say("its evaluation plan is not that of its equation".into())));
        }
    }
    probe("members_tuned", tuned as u64);
    probe("members_due", due as u64);
    Ok((tuned, due))
}
