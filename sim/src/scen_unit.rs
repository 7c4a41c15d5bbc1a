//! The building blocks of a search: evaluation contexts, constant optimisation, one generation.
use crate::cfg::Cfg;
use crate::ops::{opf, Flt};
use crate::oracle::{self, digest_expr, digest_member, Member};
use crate::report::{self, probe};
use crate::rng::{Fnv, R};
use crate::scen::*;
use crate::sched;
use crate::scen_par::Slot;
use crate::setup::{dataset, session, Ops, Sess};
use dynamic_expressions::evaluate_derivative::{DiffContext, GradContext};
use dynamic_expressions::{
    compile_plan, eval_diff_tree_array, eval_grad_tree_array, eval_plan_array_into, eval_tree_array_into, EvalContext,
    EvalOptions, PostfixExpr,
};
use symbolic_regression::{
    best_of_sample, best_sub_pop, check_constraints, crossover_generation, migrate_into, next_generation, optimize_constants,
    random_expr, random_expr_append_ops, reg_evol_cycle, CrossoverCtx, Dataset, Evaluator, MemberId, NextGenerationCtx,
    OptimizeConstantsCtx, PopMember, Population, RegEvolCtx, RunningSearchStatistics, TaggedDataset,
};

pub type Expr<T, const D: usize> = PostfixExpr<T, Ops<T>, D>;

pub fn expr<T: Flt, const D: usize>(s: &Sess<T, D>, r: &mut R, size: u64, nf: usize) -> Expr<T, D> {
    let mut rng = fastrand::Rng::with_seed(r.next());
    let n = 1 + r.below(size) as usize;
    let mut e: Expr<T, D> = if r.below(3) == 0 {
        random_expr_append_ops(&mut rng, &s.opt.operators, nf, n / 2, n.max(1) + 2)
    } else {
        random_expr(&mut rng, &s.opt.operators, nf, n)
    };
    if r.below(4) == 0 {
        for c in e.consts.iter_mut() {
            *c = T::from64((r.f() - 0.5) * [1.0, 20.0, 1e5][r.below(3) as usize]);
        }
    }
    e
}

// ---------------------------------------------------------------- C13

#[derive(PartialEq, Debug)]
struct Out13 {
    vals: Vec<u64>,
    ders: Vec<u64>,
    dims: (usize, usize),
    ok: bool,
}
fn bits<T: Flt>(v: &[T]) -> Vec<u64> {
    v.iter().map(|x| if x.is_nan() { u64::MAX } else { x.bits() }).collect()
}
struct Ctxs<T: Flt, const D: usize> {
    ev: EvalContext<T, D>,
    di: DiffContext<T, D>,
    gr: GradContext<T, D>,
    evr: Evaluator<T, D>,
}
impl<T: Flt, const D: usize> Ctxs<T, D> {
    fn new(n: usize) -> Self {
        Ctxs { ev: EvalContext::new(n), di: DiffContext::new(n), gr: GradContext::new(n), evr: Evaluator::new(n) }
    }
}
fn run13<T: Flt, const D: usize>(x: &mut Ctxs<T, D>, kind: u64, dir: usize, e: &Expr<T, D>, d: &Dataset<T>, o: &EvalOptions) -> Out13 {
    let n = d.n_rows;
    match kind {
        0 | 3 => {
            let mut out = vec![T::from64(77.0); n];
            let ok = if kind == 0 {
                eval_tree_array_into(&mut out, e, d.x.view(), &mut x.ev, o)
            } else {
                let plan = compile_plan::<D>(&e.nodes, d.n_features, e.consts.len());
                x.evr.ensure_n_rows(n);
                eval_plan_array_into(&mut out, &plan, e, d.x.view(), &mut x.evr.scratch, o)
            };
            Out13 { vals: bits(&out), ders: Vec::new(), dims: (0, 0), ok }
        }
        1 => {
            let (a, b, ok) = eval_diff_tree_array(e, d.x.view(), dir % d.n_features, &mut x.di, o);
            Out13 { vals: bits(&a), ders: bits(&b), dims: (0, 0), ok }
        }
        k => {
            let (a, g, ok) = eval_grad_tree_array(e, d.x.view(), k == 2, &mut x.gr, o);
            Out13 { vals: bits(&a), ders: bits(&g.data), dims: (g.n_dir, g.n_rows), ok }
        }
    }
}
fn work13<T: Flt, const D: usize>(s: &Sess<T, D>, sets: &[Dataset<T>], pool: &[Expr<T, D>], mut r: R, n: u64, faults: bool) -> Out {
    let mut cx: Ctxs<T, D> = Ctxs::new(s.data.n_rows);
    let mut fails = 0u64;
    for step in 0..n {
        let d = &sets[r.below(sets.len() as u64) as usize];
        let mut e = pool[r.below(pool.len() as u64) as usize].clone();
        if r.below(3) == 0 {
            for c in e.consts.iter_mut() {
                *c = T::from64((r.f() - 0.5) * 7.0);
            }
        }
        let o = EvalOptions { check_finite: r.below(5) != 0, early_exit: r.below(2) == 0 };
        let kind = r.below(5);
        let dir = r.below(8) as usize;
        let at = r.below(12);
        if faults && r.below(4) == 0 {
            // an aborted evaluation that leaves garbage behind
            opf().garbage = true;
            opf().panic_in = Some(at);
            let out = caught(|| run13(&mut cx, kind, dir, &e, d, &o));
            opf().panic_in = None;
            if out.is_err() {
                fails += 1;
                continue;
            }
            if kind == 0 || kind == 3 {
                continue;
            }
        }
        let got = run13(&mut cx, kind, dir, &e, d, &o);
        let want = sched::quiet(|| {
            let (ev, h) = (opf().evals, opf().holes);
            let w = run13(&mut Ctxs::new(d.n_rows), kind, dir, &e, d, &o);
            opf().evals = ev;
            opf().holes = h;
            w
        });
        report::log(got.vals.iter().fold(got.ok as u64, |a, b| a.rotate_left(7) ^ b));
        if !got.ok {
            probe("incomplete_evaluations", 1);
        }
        let m = got == want;
        if !m {
            return bad(
                "differs",
                format!(
                    "step {step}: {} of an expression with {} nodes ({} rows, {} features, check_finite={}, early_exit={}) gives complete={} with a used context and complete={} with a fresh one, or other values",
                    ["value", "derivative", "variable gradient", "planned value", "constant gradient"][kind as usize],
                    e.nodes.len(), d.n_rows, d.n_features, o.check_finite, o.early_exit, got.ok, want.ok
                ),
            );
        }
        // the reference itself against the independent evaluator
        if (kind == 0 || kind == 3) && o.check_finite && r.below(4) == 0 {
            sched::quiet(|| against_oracle(&e, d, &got)).or_else(|m| bad("value", format!("step {step}: {m}")))?;
        }
    }
    probe("aborted_evaluations", fails);
    probe("compared_evaluations", n - fails.min(n));
    Ok(())
}
fn against_oracle<T: Flt, const D: usize>(e: &Expr<T, D>, d: &Dataset<T>, got: &Out13) -> Result<(), String> {
    let t = oracle::parse::<T, D>(&e.nodes, e.consts.len(), d.n_features)?;
    let v = oracle::eval(&t, d, &e.consts);
    if v.vague {
        return Ok(());
    }
    if got.ok == v.broken && !matches!(t, oracle::Tree::Var(_)) {
        return Err(format!("complete={} but the evaluation is {}", got.ok, if v.broken { "not finite" } else { "finite" }));
    }
    if got.ok && bits(&v.y) != got.vals {
        return Err("values differ from an independent evaluation".into());
    }
    Ok(())
}

pub fn c13<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let s: &'static Sess<T, D> = Box::leak(Box::new(session::<T, D>(c, "")));
    let mut r = c.rng("unit");
    // datasets with the same number of rows
    let mut sets = vec![s.data.clone()];
    for i in 0..c.range("sets", 0, 2) {
        let mut d = dataset::<T>(c, ["b", "x"][i as usize]);
        let (f, n) = (d.n_features.max(s.data.n_features), s.data.n_rows);
        let mut x = ndarray::Array2::<T>::zeros((f, n));
        let mut q = c.rng("setx");
        // numbers near the largest: each is finite, most of what is done with two of them is not
        let huge = c.flag("setx_huge", 10);
        for v in x.iter_mut() {
            *v = T::from64(q.f() * 6.0 - 3.0);
            if huge {
                *v = T::max_value() * (*v / T::from64(3.3));
            }
        }
        let y = s.data.y.clone();
        d = Dataset::new(x, y);
        sets.push(d);
    }
    let size = c.pick("exprsize", &[3, 8, 20, 60]) as u64;
    let pool: Vec<Expr<T, D>> = (0..c.range("exprs", 1, 8)).map(|_| expr(s, &mut r, size, s.data.n_features)).collect();
    let n = c.range("evals", 5, 120) as u64;
    let sets: &'static Vec<Dataset<T>> = Box::leak(Box::new(sets));
    let pool: &'static Vec<Expr<T, D>> = Box::leak(Box::new(pool));
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    let threads = c.pick("workers", &[1, 1, 2, 3]);
    if threads == 1 {
        return work13(s, sets, pool, c.rng("w0"), n, c.flag("opfaults", 60));
    }
    // several workers at once, each with contexts of its own
    let outs: Vec<&'static Slot<Out>> = (0..threads).map(|_| Slot::new()).collect();
    let ids: Vec<usize> = outs
        .iter()
        .enumerate()
        .map(|(i, &o)| {
            let q = c.rng(["w0", "w1", "w2"][i]);
            sched::spawn("evaluator", move || o.put(work13(s, sets, pool, q, n, false)))
        })
        .collect();
    ids.into_iter().for_each(sched::join);
    for o in outs {
        o.take().unwrap_or_else(|| bad("lost", "no result"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn copy<T: Flt, const D: usize>(m: &Member<T, D>) -> Member<T, D> {
    m.clone()
}
fn dig<T: Flt, const D: usize>(m: &Member<T, D>) -> u64 {
    let mut h = Fnv::default();
    digest_member(&mut h, m);
    h.0
}
pub fn c15<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    s.opt.should_optimize_constants = true;
    s.opt.optimizer_iterations = c.pick("optiters2", &[1, 2, 8, 40]) as usize;
    s.opt.optimizer_nrestarts = c.range("nrestarts2", 0, 3) as usize;
    s.opt.optimizer_f_calls_limit = c.pick("optcalls2", &[1, 2, 5, 20, 100, 0, 10_000]) as usize;
    let base = s.spec().baseline().map(T::from64);
    s.cell.log().nan_seed = c.seed;
    let mut r = c.rng("unit");
    let n = s.data.n_rows;
    let mut evr: Evaluator<T, D> = Evaluator::new(n);
    let mut gctx: GradContext<T, D> = GradContext::new(n);
    let mut rng = fastrand::Rng::with_seed(r.next());
    let mut birth = 1000u64;
    let size = c.pick("exprsize", &[3, 8, 20]) as u64;
    let nan_pm = c.get("lossnan", |r| *r.pick(&[0, 0, 10, 100, 500])) as u64;
    let tagged = TaggedDataset::new(&s.data, base);
    for k in 0..c.range("members", 1, 12) as u64 {
        let e = expr(&s, &mut r, size, s.data.n_features);
        let mut m: Member<T, D> = PopMember::from_expr(MemberId(k), None, k, e, s.data.n_features);
        s.cell.log().nan_pm = 0;
        m.evaluate(&tagged, &s.opt, &mut evr);
        if r.below(8) == 0 {
            // a stale loss, as after evaluation on other rows
            m.loss = T::from64(r.f());
            m.cost = T::from64(r.f());
        }
        let before = copy(&m);
        let mut fresh = copy(&m);
        s.cell.log().nan_pm = nan_pm;
        let ok0 = fresh.evaluate(&tagged, &s.opt, &mut Evaluator::new(n));
        let start = fresh.loss;
        let l0 = s.cell.log().calls + opf().fails;
        let b0 = birth;
        if r.below(4) == 0 {
            // whatever an earlier, aborted optimisation left behind
            opf().garbage = true;
            opf().panic_in = Some(r.below(30));
            let mut junk = copy(&m);
            let _ = caught(|| {
                optimize_constants(
                    &mut rng,
                    &mut junk,
                    OptimizeConstantsCtx { dataset: tagged, options: &s.opt, evaluator: &mut evr, grad_ctx: &mut gctx, next_birth: &mut birth },
                )
            });
            opf().panic_in = None;
            birth = b0;
        }
        let l0 = l0.max(s.cell.log().calls + opf().fails);
        let (improved, evals) = optimize_constants(
            &mut rng,
            &mut m,
            OptimizeConstantsCtx { dataset: tagged, options: &s.opt, evaluator: &mut evr, grad_ctx: &mut gctx, next_birth: &mut birth },
        );
        let used = s.cell.log().calls + opf().fails - l0;
        report::log(dig(&m));
        report::log(used);
        let lim = s.opt.optimizer_f_calls_limit as u64;
        let per = 1 + s.opt.optimizer_nrestarts as u64;
        let ctx = |x: String| {
            format!("expression [{}] -> [{}], loss {:e} -> {:e}: {x}", oracle::show_expr(&before), oracle::show_expr(&m), before.loss.to64(), m.loss.to64())
        };
        if lim > 0 && used > 2 + per * (lim + 6) {
            return bad("budget", ctx(format!("{used} evaluations, the budget is {lim} for each of {per} starts")));
        }
        if evals < 0.0 || evals > used as f64 + 1.0 {
            return bad("count", ctx(format!("reports {evals} evaluations, {used} happened")));
        }
        if improved {
            probe("improved", 1);
            if m.expr.nodes != before.expr.nodes || m.expr.consts.len() != before.expr.consts.len() || m.id != before.id || m.parent != before.parent {
                return bad("structure", ctx("more than constants changed".into()));
            }
            if m.expr.consts.iter().any(|c| c.is_nan()) {
                return bad("nan", ctx("a constant became NaN".into()));
            }
            let mut f = copy(&m);
            let ok = f.evaluate(&tagged, &s.opt, &mut Evaluator::new(n));
            if !ok || f.loss.bits() != m.loss.bits() || f.cost.bits() != m.cost.bits() || f.complexity != m.complexity {
                return bad("stale", ctx(format!("re-evaluated loss {:e} cost {:e}, reported cost {:e}", f.loss.to64(), f.cost.to64(), m.cost.to64())));
            }
            if !ok0 || !(m.loss < start) {
                return bad("worse", ctx(format!("reported as improvement although the loss before was {:e}", start.to64())));
            }
            if m.birth != b0 || birth != b0 + 1 {
                return bad("birth", ctx(format!("birth {} with next stamp {b0} -> {birth}", m.birth)));
            }
            if nan_pm == 0 {
                sched::quiet(|| s.spec().numbers(&m, false)).map_err(own)?;
            }
        } else {
            probe("not_improved", 1);
            if dig(&m) != dig(&before) || birth != b0 {
                return bad("changed", ctx("not improved, yet something changed".into()));
            }
        }
        if m.plan.instrs.len() != before.plan.instrs.len() {
            return bad("plan", ctx("the plan changed".into()));
        }
    }
    probe("loss_nonfinite_injected", s.cell.log().nans);
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    Ok(())
}

// ---------------------------------------------------------------- C16

pub fn c16<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    if s.opt.mutation_weights.optimize > 0.0 {
        s.opt.should_optimize_constants = true;
        s.opt.optimizer_probability = 0.3;
    }
    let base = s.spec().baseline().map(T::from64);
    let mut r = c.rng("unit");
    let n = s.data.n_rows;
    let tagged = TaggedDataset::new(&s.data, base);
    let mut evr: Evaluator<T, D> = Evaluator::new(n);
    let mut rng = fastrand::Rng::with_seed(r.next());
    let mut stats = RunningSearchStatistics::new(s.opt.maxsize, 1000);
    let (mut id, mut birth) = (1u64 << 33, 50u64);
    let pct = c.pick("oppanic", &[0, 0, 5, 30]) as u64;
    let mut cur: Option<Member<T, D>> = None;
    let mut other: Option<Member<T, D>> = None;
    let mut aborted = 0;
    for k in 0..c.range("gens", 3, 60) {
        let m = match cur.take() {
            Some(m) if r.below(10) != 0 => m,
            _ => {
                let size = s.opt.maxsize.max(2) as u64;
                let mut m: Member<T, D> = PopMember::from_expr(MemberId(id), None, birth, expr(&s, &mut r, size, s.data.n_features), s.data.n_features);
                id += 1;
                birth += 1;
                m.evaluate(&tagged, &s.opt, &mut evr);
                m
            }
        };
        stats.update_from_population([m.complexity]);
        stats.move_window();
        stats.normalize();
        let cms = if r.below(4) == 0 { 1 + r.below(s.opt.maxsize as u64) as usize } else { s.opt.maxsize };
        let temp = [0.0, 0.3, 1.0][r.below(3) as usize];
        if r.below(4) == 0 {
            crossing(&s, tagged, &m, other.as_ref().unwrap_or(&m), cms, &mut rng, &mut evr, &mut id, &mut birth, &mut r, pct, k)?;
        }
        if r.below(3) == 0 {
            other = Some(copy(&m));
        }
        let before = dig(&m);
        let (id0, b0) = (id, birth);
        let rng0 = rng.clone();
        let gen = |rng: &mut fastrand::Rng, evr: &mut Evaluator<T, D>, id: &mut u64, birth: &mut u64| {
            next_generation(
                &m,
                NextGenerationCtx {
                    rng,
                    dataset: tagged,
                    temperature: temp,
                    curmaxsize: cms,
                    stats: &stats,
                    options: &s.opt,
                    evaluator: evr,
                    next_id: id,
                    next_birth: birth,
                    _ops: core::marker::PhantomData::<Ops<T>>,
                },
            )
        };
        if r.below(100) < pct {
            opf().garbage = true;
            opf().panic_in = Some(r.below(20));
            let out = caught(|| gen(&mut rng, &mut evr, &mut id, &mut birth));
            opf().panic_in = None;
            if dig(&m) != before {
                return bad("parent", format!("generation {k}: the parent changed in an aborted mutation"));
            }
            if out.is_err() {
                aborted += 1;
                id = id.max(id0);
                cur = Some(m);
                continue;
            }
            rng = rng0.clone();
            (id, birth) = (id0, b0);
        }
        let (baby, accepted, evals) = gen(&mut rng, &mut evr, &mut id, &mut birth);
        // the same with an untouched evaluator
        let (mut rng2, mut id2, mut birth2) = (rng0, id0, b0);
        let (twin, acc2, ev2) = gen(&mut rng2, &mut Evaluator::new(n), &mut id2, &mut birth2);
        report::log(dig(&baby));
        if dig(&twin) != dig(&baby) || acc2 != accepted || ev2 != evals {
            return bad("evaluator", format!("generation {k}: a used evaluator gives another child than a fresh one"));
        }
        if dig(&m) != before {
            return bad("parent", format!("generation {k}: the parent changed"));
        }
        let say = |x: &str| format!("generation {k}: [{}] -> [{}] accepted={accepted}: {x}", oracle::show_expr(&m), oracle::show_expr(&baby));
        if baby.id.0 != id0 || id != id0 + 1 || baby.birth != b0 || birth != b0 + 1 || baby.parent != Some(m.id) {
            return bad("stamp", say(&format!("id {} birth {} parent {:?}, stamps were {id0} {b0}", baby.id.0, baby.birth, baby.parent)));
        }
        if accepted {
            probe("accepted", 1);
            let ok = sched::quiet(|| -> Out {
                let sp = s.spec();
                let t = sp.tree(&baby).or_else(|e| bad("malformed", say(&e)))?;
                sp.full_constraints(&t, cms).or_else(|e| bad("constraint", say(&e)))?;
                sp.numbers(&baby, !exact(&s)).map_err(|(k, e)| (k.to_string(), say(&e)))?;
                Ok(())
            });
            ok?;
            if !check_constraints(&baby.expr, &s.opt, cms) {
                return bad("constraint", say("the library's own constraint check fails"));
            }
        } else {
            probe("rejected", 1);
            if !oracle::same_expr(&m, &baby) || m.loss.bits() != baby.loss.bits() || m.cost.bits() != baby.cost.bits() || m.complexity != baby.complexity {
                return bad("rejected", say("a rejected child differs from its parent"));
            }
        }
        // the child's plan is that of its expression
        let (mut a, mut b) = (baby.clone(), baby.clone());
        b.rebuild_plan(s.data.n_features);
        a.evaluate(&tagged, &s.opt, &mut evr);
        b.evaluate(&tagged, &s.opt, &mut Evaluator::new(n));
        if dig(&a) != dig(&b) {
            return bad("plan", say("the child's evaluation plan is not that of its equation"));
        }
        cur = Some(if accepted { baby } else { m });
    }
    let _ = digest_expr::<T, D>;
    probe("mutations_aborted", aborted);
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    Ok(())
}

/// The nodes of an expression, constants by value, in sorted order.
fn bag<T: Flt, const D: usize>(m: &[&Member<T, D>]) -> Vec<(u8, u64)> {
    use dynamic_expressions::node::PNode;
    let mut v: Vec<(u8, u64)> = Vec::new();
    for m in m {
        for n in &m.expr.nodes {
            v.push(match *n {
                PNode::Var { feature } => (0, feature as u64),
                PNode::Const { idx } => (100, m.expr.consts[idx as usize].bits()),
                PNode::Op { arity, op } => (arity, op as u64),
            });
        }
    }
    v.sort_unstable();
    v
}

/// One crossover of two members (maybe the same one).
#[allow(clippy::too_many_arguments)]
fn crossing<T: Flt, const D: usize>(
    s: &Sess<T, D>,
    tagged: TaggedDataset<'_, T>,
    m1: &Member<T, D>,
    m2: &Member<T, D>,
    cms: usize,
    rng: &mut fastrand::Rng,
    evr: &mut Evaluator<T, D>,
    id: &mut u64,
    birth: &mut u64,
    r: &mut R,
    pct: u64,
    k: i64,
) -> Out {
    let (d1, d2) = (dig(m1), dig(m2));
    let (id0, b0) = (*id, *birth);
    let rng0 = rng.clone();
    let go = |rng: &mut fastrand::Rng, evr: &mut Evaluator<T, D>, id: &mut u64, birth: &mut u64| {
        crossover_generation(
            m1,
            m2,
            CrossoverCtx {
                rng,
                dataset: tagged,
                curmaxsize: cms,
                options: &s.opt,
                evaluator: evr,
                next_id: id,
                next_birth: birth,
                _ops: core::marker::PhantomData::<Ops<T>>,
            },
        )
    };
    if r.below(100) < pct {
        opf().garbage = true;
        opf().panic_in = Some(r.below(20));
        let out = caught(|| go(rng, evr, id, birth));
        opf().panic_in = None;
        if dig(m1) != d1 || dig(m2) != d2 {
            return bad("parent", format!("generation {k}: a parent changed in an aborted crossover"));
        }
        if out.is_err() {
            probe("crossovers_aborted", 1);
            return Ok(());
        }
        *rng = rng0.clone();
        (*id, *birth) = (id0, b0);
    }
    let (a, b, accepted, evals) = go(rng, evr, id, birth);
    let (mut rng2, mut id2, mut birth2) = (rng0, id0, b0);
    let (a2, b2, acc2, ev2) = go(&mut rng2, &mut Evaluator::new(tagged.n_rows), &mut id2, &mut birth2);
    let say = |x: &str| {
        format!("generation {k}: crossover of [{}] and [{}] -> [{}] and [{}] accepted={accepted}: {x}", oracle::show_expr(m1), oracle::show_expr(m2), oracle::show_expr(&a), oracle::show_expr(&b))
    };
    if (dig(&a), dig(&b), accepted, evals) != (dig(&a2), dig(&b2), acc2, ev2) {
        return bad("evaluator", say("a used evaluator gives other children than a fresh one"));
    }
    if dig(m1) != d1 || dig(m2) != d2 {
        return bad("parent", say("a parent changed"));
    }
    report::log(dig(&a) ^ dig(&b).rotate_left(7));
    if !accepted {
        probe("crossovers_rejected", 1);
        if dig(&a) != d1 || dig(&b) != d2 {
            return bad("rejected", say("a rejected crossover does not return the parents"));
        }
        return Ok(());
    }
    probe("crossovers_accepted", 1);
    for (x, p, i) in [(&a, m1, 0), (&b, m2, 1)] {
        if x.id.0 != id0 + i || x.birth != b0 + i || x.parent != Some(p.id) {
            return bad("stamp", say(&format!("id {} birth {} parent {:?}, stamps were {id0} {b0}", x.id.0, x.birth, x.parent)));
        }
        sched::quiet(|| -> Out {
            let sp = s.spec();
            let t = sp.tree(x).or_else(|e| bad("malformed", say(&e)))?;
            sp.full_constraints(&t, cms).or_else(|e| bad("constraint", say(&e)))?;
            sp.numbers(x, false).map_err(|(k, e)| (k.to_string(), say(&e)))?;
            Ok(())
        })?;
        // the child's plan is that of its expression
        let (mut u, mut v) = (x.clone(), x.clone());
        v.rebuild_plan(s.data.n_features);
        u.evaluate(&tagged, &s.opt, evr);
        v.evaluate(&tagged, &s.opt, &mut Evaluator::new(tagged.n_rows));
        if dig(&u) != dig(&v) {
            return bad("plan", say("a child's evaluation plan is not that of its equation"));
        }
    }
    if *id != id0 + 2 || *birth != b0 + 2 {
        return bad("stamp", say("stamps were not consumed one by one"));
    }
    if bag(&[&a, &b]) != bag(&[m1, m2]) {
        return bad("exchange", say("the children together do not hold exactly the nodes of their parents"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

fn ln_choose(n: usize, k: usize) -> f64 {
    (0..k).map(|i| ((n - i) as f64 / (k - i) as f64).ln()).sum()
}

/// A population lives through evolution cycles, migrations, drawn parents and aborted evaluations.
pub fn c26<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    if s.opt.mutation_weights.optimize > 0.0 {
        s.opt.should_optimize_constants = true;
        s.opt.optimizer_probability = 0.3;
    }
    if c.flag("crowd", 4) {
        return crowd(&s, c);
    }
    let base = s.spec().baseline().map(T::from64);
    let mut r = c.rng("unit");
    let n = s.data.n_rows;
    let tagged = TaggedDataset::new(&s.data, base);
    let mut evr: Evaluator<T, D> = Evaluator::new(n);
    let mut rng = fastrand::Rng::with_seed(r.next());
    let (mut id, mut birth) = (1u64 << 33, 50u64);
    let size = c.pick("members", &[1, 2, 3, 5, 8, 13, 25, 60]) as usize;
    // one event per cycle: what it did can be read off exactly
    let single = c.flag("single", 60);
    s.opt.tournament_selection_n = if single { size + r.below(3) as usize } else { c.pick("tourn26", &[1, 2, 3, 8]) as usize };
    let approx = !exact(&s);
    let mut stats = RunningSearchStatistics::new(s.opt.maxsize, 1000);
    let mut born: Vec<Member<T, D>> = Vec::new();
    for _ in 0..size {
        // an initial population holds members of any complexity: the options only bind what evolution adds
        let e = expr(&s, &mut r, s.opt.maxsize.max(2) as u64, s.data.n_features);
        let mut m: Member<T, D> = PopMember::from_expr(MemberId(id), None, birth, e, s.data.n_features);
        id += 1;
        birth += 1;
        m.evaluate(&tagged, &s.opt, &mut evr);
        born.push(m);
    }
    if r.below(2) == 0 {
        // ages in any order
        for i in (1..born.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            let b = born[i].birth;
            born[i].birth = born[j].birth;
            born[j].birth = b;
        }
    }
    let mut pop = Population::new(born);
    let mut visitors: Vec<Member<T, D>> = Vec::new();
    let pct = c.pick("oppanic", &[0, 0, 5, 30]) as u64;
    let (mut sum, mut mean) = (0.0, 0.0);
    let clones = !s.opt.skip_mutation_failures;
    for k in 0..c.range("events", 5, 60) {
        let old: Vec<Member<T, D>> = pop.members.clone();
        let digs: Vec<u64> = old.iter().map(dig).collect();
        let (id0, b0) = (id, birth);
        let cms = if r.below(4) == 0 { 1 + r.below(s.opt.maxsize as u64) as usize } else { s.opt.maxsize };
        let changed = |pop: &Population<T, Ops<T>, D>| -> Vec<usize> { (0..pop.len().min(size)).filter(|&i| dig(&pop.members[i]) != digs[i]).collect() };
        match r.below(10) {
            0..=5 => {
                stats.update_from_population(pop.members.iter().map(|m| m.complexity));
                stats.move_window();
                stats.normalize();
                let temp = [0.0, 0.3, 1.0][r.below(3) as usize];
                let abort = r.below(100) < pct;
                if abort {
                    opf().garbage = true;
                    opf().panic_in = Some(r.below(60));
                }
                let out = caught(|| {
                    reg_evol_cycle(
                        &mut pop,
                        RegEvolCtx {
                            rng: &mut rng,
                            dataset: tagged,
                            temperature: temp,
                            curmaxsize: cms,
                            stats: &stats,
                            options: &s.opt,
                            evaluator: &mut evr,
                            next_id: &mut id,
                            next_birth: &mut birth,
                            _ops: core::marker::PhantomData::<Ops<T>>,
                        },
                    )
                });
                opf().panic_in = None;
                if out.is_err() {
                    probe("cycles_aborted", 1);
                }
                if pop.len() != size {
                    return bad("size", format!("event {k}: a population of {size} became one of {}", pop.len()));
                }
                let new = changed(&pop);
                let what = |x: String| format!("event {k} (evolution, {} of {size} members replaced): {x}", new.len());
                // whatever stayed is the younger part; what came is a child or (when failures are not skipped) a copy
                let gone_max = new.iter().map(|&i| old[i].birth).max().unwrap_or(0);
                if new.len() < size {
                    if let Some(i) = (0..size).find(|i| !new.contains(i) && old[*i].birth < gone_max) {
                        // a rejected crossover may put a copy of the oldest in its own place and one in that of the next
                        let younger = old.iter().filter(|o| o.birth < gone_max).count();
                        let fine = clones && single && new.len() == 1 && younger == 1 && pop.members[new[0]].id.0 < id0;
                        if !fine && (!clones || single) {
                            return bad("oldest", what(format!("the member born at {gone_max} was replaced although the one born at {} is still there", old[i].birth)));
                        }
                    }
                }
                if single && new.len() > 2 {
                    return bad("many", what("one generation replaced more than two members".into()));
                }
                if single && s.opt.crossover_probability >= 1.0 && size > 1 && new.len() == 1 && !clones {
                    return bad("pair", what("a crossover replaced one member only".into()));
                }
                if single && s.opt.crossover_probability <= 0.0 && new.len() > 1 {
                    return bad("pair", what("a mutation replaced two members".into()));
                }
                if single && clones && out.is_ok() && new.is_empty() && s.opt.crossover_probability <= 0.0 {
                    return bad("none", what("nothing was replaced although failed mutations are not skipped".into()));
                }
                let mut births: Vec<u64> = Vec::new();
                for &i in &new {
                    let m = &pop.members[i];
                    let say = |x: String| what(format!("new member #{} [{}] born {}: {x}", m.id.0, oracle::show_expr(m), m.birth));
                    let copy_of = old.iter().find(|o| oracle::same_expr(o, m) && o.loss.bits() == m.loss.bits() && o.cost.bits() == m.cost.bits() && o.complexity == m.complexity);
                    let fresh = m.id.0 >= id0 && m.birth >= b0;
                    if fresh {
                        // the same child twice: both copies of a rejected crossover
                        let twice = births.contains(&m.birth) && !(clones && !single && new.iter().any(|&j| j != i && dig(&pop.members[j]) == dig(m)));
                        if m.id.0 >= id || m.birth >= birth || twice {
                            return bad("stamp", say(format!("stamps {id0}..{id} and {b0}..{birth}")));
                        }
                        births.push(m.birth);
                        let known = m.parent.is_some_and(|p| old.iter().any(|o| o.id == p) || (!single && p.0 >= id0 && p.0 < id));
                        if !known {
                            return bad("parent", say(format!("its parent {:?} was not in the population", m.parent)));
                        }
                        if clones && copy_of.is_some() {
                            continue;
                        }
                        sched::quiet(|| -> Out {
                            let sp = s.spec();
                            let t = sp.tree(m).or_else(|e| bad("malformed", say(e)))?;
                            match sp.full_constraints(&t, cms) {
                                // a rejected child of a new member that failed later
                                Err(_) if clones && !single && old.iter().any(|o| oracle::same_expr(o, m)) => {}
                                Err(e) => return bad("constraint", say(e)),
                                Ok(()) => {}
                            }
                            sp.numbers(m, approx).map_err(|(k, e)| (k.to_string(), say(e)))
                        })?;
                    } else {
                        // a rejected crossover returns its parents
                        if !clones || !old.iter().any(|o| dig(o) == dig(m)) {
                            return bad("stamp", say(format!("it is no child: stamps {id0}..{id} and {b0}..{birth}")));
                        }
                    }
                }
                probe("members_replaced", new.len() as u64);
            }
            6 | 7 => {
                // migration
                if visitors.is_empty() || r.below(3) == 0 {
                    visitors = best_sub_pop(&pop, r.below(size as u64 + 3) as usize);
                }
                let v0: Vec<u64> = visitors.iter().map(dig).collect();
                let frac = *r.pick(&[0.0, 0.05, 0.2, 0.5, 1.0, 3.0, -1.0, f64::INFINITY]);
                migrate_into(&mut pop, &visitors, frac, &mut rng, &mut id, &mut birth);
                if pop.len() != size {
                    return bad("size", format!("event {k}: migration turned a population of {size} into one of {}", pop.len()));
                }
                if visitors.iter().map(dig).collect::<Vec<_>>() != v0 {
                    return bad("migrant", format!("event {k}: migration changed a migrant"));
                }
                let new = changed(&pop);
                let what = |x: String| format!("event {k} (migration of {} into {size}, fraction {frac}): {x}", visitors.len());
                let made = id - id0;
                if birth - b0 != made || made as usize > size.min(visitors.len()) || new.len() as u64 > made {
                    return bad("many", what(format!("{made} identifiers and {} birth stamps were used for {} new members", birth - b0, new.len())));
                }
                if (frac <= 0.0 || !frac.is_finite()) && made > 0 {
                    return bad("fraction", what(format!("{made} members migrated")));
                }
                for &i in &new {
                    let m = &pop.members[i];
                    let say = |x: &str| what(format!("new member #{} [{}]: {x}", m.id.0, oracle::show_expr(m)));
                    if m.id.0 < id0 || m.id.0 >= id || m.birth < b0 || m.birth >= birth || m.id.0 - id0 != m.birth - b0 {
                        return bad("stamp", say("no fresh identifier or birth stamp"));
                    }
                    let Some(src) = visitors.iter().find(|v| Some(v.id) == m.parent) else {
                        return bad("parent", say("no migrant is its parent"));
                    };
                    if !visitors.iter().any(|v| Some(v.id) == m.parent && oracle::same_expr(v, m) && v.loss.bits() == m.loss.bits() && v.cost.bits() == m.cost.bits() && v.complexity == m.complexity) {
                        return bad("copy", say(&format!("it is no copy of its parent [{}]", oracle::show_expr(src))));
                    }
                }
                // how many migrate is Poisson-distributed about the fraction; only clear of the limits it can be judged
                let want = size as f64 * frac;
                if want > 0.0 && want.is_finite() && visitors.len() >= size && want + 6.0 * want.sqrt() + 3.0 < size as f64 {
                    sum += made as f64;
                    mean += want;
                }
                probe("members_migrated", made);
            }
            8 => {
                // the best of a population
                let top = r.below(size as u64 + 3) as usize;
                let v = best_sub_pop(&pop, top);
                let mut costs: Vec<f64> = pop.members.iter().map(|m| m.cost.to64()).collect();
                costs.sort_by(|a, b| a.total_cmp(b));
                let got: Vec<f64> = v.iter().map(|m| m.cost.to64()).collect();
                if v.len() != top.min(size) || got != costs[..v.len()] {
                    return bad("top", format!("event {k}: the best {top} of {size} have costs {got:?}, expected the lowest of {costs:?}"));
                }
                let mut left = digs.clone();
                for m in &v {
                    match left.iter().position(|d| *d == dig(m)) {
                        Some(i) => left.swap_remove(i),
                        None => return bad("top", format!("event {k}: one of the best is no member of the population, or listed twice")),
                    };
                }
            }
            _ => draws(&s, &pop, &stats, &mut rng, &mut r, k)?,
        }
        report::log(pop.members.iter().fold(k as u64, |a, m| a.rotate_left(9) ^ dig(m)));
    }
    if mean > 0.0 && xlog(sum, mean) - sum + mean > RARE {
        return bad("fraction", format!("{sum} members migrated where {mean:.1} were to be expected"));
    }
    let _ = digest_expr::<T, D>;
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    Ok(())
}

/// Many migrations into a large population: how many come, who comes and whose place is taken.
fn crowd<T: Flt, const D: usize>(s: &Sess<T, D>, c: &Cfg) -> Out {
    let mut r = c.rng("crowd");
    let mut rng = fastrand::Rng::with_seed(r.next());
    let (mut id, mut birth) = (1u64 << 33, 50u64);
    let size = c.range("crowdsize", 60, 1500) as usize;
    let e = expr(s, &mut r, s.opt.maxsize.max(2) as u64, s.data.n_features);
    let one: Member<T, D> = PopMember::from_expr(MemberId(0), None, 0, e, s.data.n_features);
    let many = |n: usize, id: &mut u64, birth: &mut u64| -> Vec<Member<T, D>> {
        (0..n)
            .map(|_| {
                let mut m = one.clone();
                m.id = MemberId(*id);
                m.birth = *birth;
                *id += 1;
                *birth += 1;
                m
            })
            .collect()
    };
    let mut pop = Population::new(many(size, &mut id, &mut birth));
    let list = many(size + r.below(size as u64) as usize, &mut id, &mut birth);
    let first = list[0].id.0;
    // so few that the size of the population never binds
    let most = (size as f64 - 3.0 - 6.0 * (size as f64).sqrt()).max(1.0) / size as f64;
    let frac = most * [0.02, 0.1, 0.3, 0.6, 0.9][r.below(5) as usize];
    let want = size as f64 * frac;
    let times = (100.0 * list.len() as f64 / want).ceil().clamp(100.0, 3000.0) as usize;
    let (mut sum, mut came, mut gone) = (0.0f64, vec![0u32; list.len()], vec![0u32; size]);
    for _ in 0..times {
        let (id0, b0) = (id, birth);
        migrate_into(&mut pop, &list, frac, &mut rng, &mut id, &mut birth);
        if pop.len() != size || id - id0 != birth - b0 {
            return bad("size", format!("a migration into {size} members left {} and used {} identifiers and {} birth stamps", pop.len(), id - id0, birth - b0));
        }
        sum += (id - id0) as f64;
        let mut seen = 0;
        for (i, m) in pop.members.iter().enumerate() {
            if m.id.0 >= id0 {
                seen += 1;
                gone[i] += 1;
                match m.parent.and_then(|p| came.get_mut(p.0.wrapping_sub(first) as usize)) {
                    Some(n) => *n += 1,
                    None => return bad("parent", format!("a new member's parent {:?} is no migrant", m.parent)),
                }
            }
        }
        if seen > id - id0 {
            return bad("many", format!("{seen} members are new, {} identifiers were used", id - id0));
        }
    }
    let mean = want * times as f64;
    let say = |x: String| format!("{times} migrations from {} into {size} members, fraction {frac}: {x}", list.len());
    if xlog(sum, mean) - sum + mean > RARE {
        return bad("fraction", say(format!("{sum} members migrated where {mean:.1} were to be expected")));
    }
    // a chance of e^-40 each: a place taken twice in one migration counts once, which halves the count at worst
    let all = sum / list.len() as f64;
    if all * 0.4 > RARE && came.contains(&0) {
        return bad("who", say(format!("migrant {:?} never came, each is due {all:.0} times", came.iter().position(|n| *n == 0))));
    }
    if sum / size as f64 * 0.4 > RARE && gone.contains(&0) {
        return bad("where", say(format!("place {:?} was never taken", gone.iter().position(|n| *n == 0))));
    }
    probe("members_migrated", sum as u64);
    report::log(sum as u64);
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    Ok(())
}

/// Chernoff's bound: a count is judged impossible when its chance is below exp(-RARE).
pub const RARE: f64 = 36.0;
pub fn xlog(x: f64, y: f64) -> f64 {
    if x <= 0.0 {
        0.0
    } else {
        x * (x / y).ln()
    }
}

/// Parents drawn many times: with which probability is the member of each rank chosen?
fn draws<T: Flt, const D: usize>(s: &Sess<T, D>, pop: &Population<T, Ops<T>, D>, stats: &RunningSearchStatistics, rng: &mut fastrand::Rng, r: &mut R, k: i64) -> Out {
    let len = pop.len();
    let mut o = s.opt.clone();
    o.tournament_selection_n = 1 + r.below(len as u64 + 2) as usize;
    let n = o.tournament_selection_n.min(len);
    o.tournament_selection_p = *r.pick(&[1.0f32, 0.982, 0.6, 0.2]);
    // the size frequencies scale the cost; costs are compared, ties count together
    let adj = |m: &Member<T, D>| {
        let f = if o.use_frequency_in_tournament && m.complexity > 0 && m.complexity <= o.maxsize { stats.normalized_frequencies[m.complexity - 1] } else { 0.0 };
        m.cost.to64() * if o.use_frequency_in_tournament { (o.adaptive_parsimony_scaling * f).exp().min(f64::MAX) } else { 1.0 }
    };
    let a: Vec<f64> = pop.members.iter().map(adj).collect();
    let mut sorted = a.clone();
    sorted.sort_by(|x, y| x.total_cmp(y));
    let q = 1.0 - o.tournament_selection_p as f64;
    let p = |i: usize| if q <= 0.0 { (i == 0) as u8 as f64 } else { q.powi(i as i32) * (1.0 - q) / (1.0 - q.powi(n as i32)) };
    // P(rank j of the population is chosen): it is rank i of the sample, j-i better ones are left out
    let mut prob = vec![0.0; len];
    for (j, pr) in prob.iter_mut().enumerate() {
        for i in 0..n.min(j + 1) {
            if n - 1 - i > len - 1 - j {
                continue;
            }
            *pr += (ln_choose(j, i) + ln_choose(len - 1 - j, n - 1 - i) - ln_choose(len, n)).exp() * p(i);
        }
    }
    let times = 300;
    let digs: Vec<u64> = pop.members.iter().map(dig).collect();
    let mut got: Vec<(f64, u64)> = Vec::new();
    for _ in 0..times {
        let m = best_of_sample(rng, pop, stats, &o);
        let d = dig(&m);
        let Some(i) = digs.iter().position(|x| *x == d) else {
            return bad("draw", format!("event {k}: a drawn parent is no member of the population"));
        };
        match got.iter_mut().find(|g| g.0.to_bits() == a[i].to_bits()) {
            Some(g) => g.1 += 1,
            None => got.push((a[i], 1)),
        }
    }
    let mut at = 0;
    while at < len {
        let end = (at..len).find(|&j| sorted[j].to_bits() != sorted[at].to_bits()).unwrap_or(len);
        let all = times as f64;
        let e = prob[at..end].iter().sum::<f64>().clamp(1e-12, 1.0 - 1e-12) * all;
        let g = got.iter().find(|g| g.0.to_bits() == sorted[at].to_bits()).map_or(0, |g| g.1) as f64;
        if xlog(g, e) + xlog(all - g, all - e) > RARE {
            return bad("rank", format!("event {k}: tournament of {n} among {len} with p={}: ranks {at}..{end} were drawn {g} of {times} times, expected {e:.1}", o.tournament_selection_p));
        }
        at = end;
    }
    probe("parents_drawn", times);
    Ok(())
}
