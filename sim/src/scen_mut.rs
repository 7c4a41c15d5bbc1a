//! What one mutation may change, and that what is switched off never happens.
use crate::cfg::Cfg;
use crate::ops::{opf, Flt};
use crate::oracle::{self, digest_expr, Member};
use crate::report::{self, probe};
use crate::rng::{Fnv, R};
use crate::scen::*;
use crate::scen_unit::{expr, Expr, xlog, RARE};
use crate::setup::{session, Ops, Sess};
use dynamic_expressions::node::PNode;
use dynamic_expressions::OpId;
use symbolic_regression::{
    next_generation, reg_evol_cycle, Evaluator, MemberId, NextGenerationCtx, PopMember, Population, RegEvolCtx,
    RunningSearchStatistics, SearchEngine, TaggedDataset,
};

/// An equation as a tree of values; constants by their bits.
#[derive(Clone, PartialEq, Debug)]
enum N {
    Var(usize),
    Const(u64),
    Op(OpId, Vec<N>),
}
impl N {
    fn of<T: Flt, const D: usize>(m: &Member<T, D>) -> N {
        let mut st: Vec<N> = Vec::new();
        for n in &m.expr.nodes {
            match *n {
                PNode::Var { feature } => st.push(N::Var(feature as usize)),
                PNode::Const { idx } => st.push(N::Const(m.expr.consts[idx as usize].to64().to_bits())),
                PNode::Op { arity, op } => {
                    let a = st.split_off(st.len() - arity as usize);
                    st.push(N::Op(OpId { arity, id: op }, a));
                }
            }
        }
        st.pop().unwrap()
    }
    fn size(&self) -> usize {
        match self {
            N::Op(_, a) => 1 + a.iter().map(N::size).sum::<usize>(),
            _ => 1,
        }
    }
    fn any(&self, f: &dyn Fn(&N) -> bool) -> bool {
        f(self) || matches!(self, N::Op(_, a) if a.iter().any(|x| x.any(f)))
    }
    fn leaf(&self) -> bool {
        !matches!(self, N::Op(..))
    }
    /// Are the two equal but for one place, where `f` holds? (`f` also decides about equal trees.)
    fn one_place(&self, o: &N, f: &dyn Fn(&N, &N) -> bool) -> bool {
        if f(self, o) {
            return true;
        }
        match (self, o) {
            (N::Op(p, a), N::Op(q, b)) if p == q => {
                let diff: Vec<usize> = (0..a.len()).filter(|&i| a[i] != b[i]).collect();
                match diff.len() {
                    0 => (0..a.len()).any(|i| a[i].one_place(&b[i], f)),
                    1 => a[diff[0]].one_place(&b[diff[0]], f),
                    _ => false,
                }
            }
            _ => false,
        }
    }
    /// Equal up to constants.
    fn same_shape(&self, o: &N) -> bool {
        match (self, o) {
            (N::Op(p, a), N::Op(q, b)) => p == q && a.iter().zip(b).all(|(x, y)| x.same_shape(y)),
            (N::Var(a), N::Var(b)) => a == b,
            (N::Const(_), N::Const(_)) => true,
            _ => false,
        }
    }
}

const KINDS: [&str; 12] =
    ["mutate_constant", "mutate_operator", "mutate_feature", "swap_operands", "rotate_tree", "add_node", "insert_node", "delete_node", "simplify", "randomize", "do_nothing", "optimize"];

fn weights<T: Flt, const D: usize>(s: &Sess<T, D>) -> [f64; 12] {
    let m = &s.opt.mutation_weights;
    let mut w = [
        m.mutate_constant, m.mutate_operator, m.mutate_feature, m.swap_operands, m.rotate_tree, m.add_node, m.insert_node, m.delete_node, m.simplify, m.randomize,
        m.do_nothing, m.optimize,
    ];
    if !s.opt.should_simplify {
        w[8] = 0.0;
    }
    if !s.opt.should_optimize_constants || s.opt.optimizer_probability == 0.0 {
        w[11] = 0.0;
    }
    w
}

struct Rules<'a, T: Flt, const D: usize> {
    s: &'a Sess<T, D>,
    on: Vec<usize>,
    cms: usize,
    temp: f64,
}
impl<T: Flt, const D: usize> Rules<'_, T, D> {
    fn enabled(&self, op: OpId) -> bool {
        self.s.opt.operators.ops_by_arity.iter().flatten().any(|o| *o == op)
    }
    fn fresh(&self, n: &N) -> bool {
        match n {
            N::Var(f) => *f < self.s.data.n_features,
            N::Const(b) => f64::from_bits(*b).abs() < 40.0,
            N::Op(..) => false,
        }
    }
    /// An enabled operator over fresh leaves and, when given, one old operand.
    fn grown(&self, n: &N, old: Option<&N>) -> bool {
        let N::Op(op, a) = n else { return false };
        self.enabled(*op)
            && match old {
                None => a.iter().all(|x| self.fresh(x)),
                Some(o) => (0..a.len()).any(|i| a[i] == *o && a.iter().enumerate().all(|(j, x)| j == i || self.fresh(x))),
            }
    }
    /// Can the mutation change a tree like this at all?
    fn applies(&self, k: usize, p: &N, complexity: usize) -> bool {
        let has = |f: &dyn Fn(&N) -> bool| p.any(f);
        match k {
            0 | 11 => has(&|n| matches!(n, N::Const(_))),
            1 | 7 | 8 => !p.leaf(),
            2 => self.s.data.n_features > 1 && has(&|n| matches!(n, N::Var(_))),
            3 => has(&|n| matches!(n, N::Op(o, _) if o.arity == 2)),
            4 => has(&|n| matches!(n, N::Op(_, a) if a.iter().any(|x| !x.leaf()))),
            5 | 6 => complexity < self.cms,
            _ => true,
        }
    }
    fn explains(&self, k: usize, p: &N, c: &N) -> bool {
        match k {
            0 => p.one_place(c, &|a, b| {
                let (N::Const(a), N::Const(b)) = (a, b) else { return false };
                let (x, y) = (f64::from_bits(*a), f64::from_bits(*b));
                let max = (self.s.opt.perturbation_factor * self.temp.max(0.0) + 1.1) * (1.0 + 1e-4);
                let q = (y / x).abs();
                let tiny = oracle::huge_of::<T>().recip();
                // zero, infinite and vanishing constants have no meaningful factor
                x == 0.0 && y == 0.0 || !x.is_finite() && !y.is_finite() || x.abs() < tiny || y.abs() < tiny || y.abs() > oracle::huge_of::<T>() || (q <= max && q * max >= 1.0)
            }),
            1 => p.one_place(c, &|a, b| matches!((a, b), (N::Op(o, x), N::Op(q, y)) if o.arity == q.arity && x == y && self.enabled(*q))),
            2 => p.one_place(c, &|a, b| matches!((a, b), (N::Var(x), N::Var(y)) if x != y && *y < self.s.data.n_features)),
            3 => p.one_place(c, &|a, b| matches!((a, b), (N::Op(o, x), N::Op(q, y)) if o == q && o.arity == 2 && x[0] == y[1] && x[1] == y[0])),
            4 => p.one_place(c, &|a, b| {
                let (N::Op(root, x), N::Op(pivot, y)) = (a, b) else { return false };
                x.iter().enumerate().any(|(i, child)| {
                    let N::Op(o, z) = child else { return false };
                    o == pivot
                        && (0..z.len()).any(|g| {
                            let mut inner = x.clone();
                            inner[i] = z[g].clone();
                            let mut outer = z.clone();
                            outer[g] = N::Op(*root, inner);
                            outer == *y
                        })
                })
            }),
            5 => self.grown(c, Some(p)) || p.one_place(c, &|a, b| a.leaf() && self.grown(b, None)),
            6 => p.one_place(c, &|a, b| self.grown(b, Some(a))),
            7 => p.one_place(c, &|a, b| matches!(a, N::Op(_, x) if x.iter().any(|k| k == b))),
            8 => c.size() <= p.size() && !c.any(&|n| matches!(n, N::Var(f) if !p.any(&|m| *m == N::Var(*f)))),
            9 => c.size() <= self.cms.max(1) && !c.any(&|n| matches!(n, N::Op(o, _) if !self.enabled(*o))) && !c.any(&|n| n.leaf() && !self.fresh(n)),
            10 => p == c,
            _ => p.same_shape(c),
        }
    }
    fn judge(&self, p: &Member<T, D>, c: &Member<T, D>, say: &dyn Fn(&str) -> String) -> Out {
        let (a, b) = (N::of(p), N::of(c));
        let by: Vec<usize> = self.on.iter().copied().filter(|&k| self.explains(k, &a, &b)).collect();
        if by.is_empty() && !(a == b && !self.on.iter().any(|&k| self.applies(k, &a, p.complexity))) {
            let names: Vec<&str> = self.on.iter().map(|&k| KINDS[k]).collect();
            return bad("change", say(&format!("no enabled mutation ({}) makes this change", names.join(", "))));
        }
        if by.len() == 1 {
            probe("changes_of_one_kind", 1);
        }
        if self.on == [8] && c.loss.bits() != p.loss.bits() && a != b {
            return bad("simplified-loss", say("simplification changed the recorded loss"));
        }
        if self.on == [11] && c.loss.to64() > p.loss.to64() && by == [11] {
            return bad("worse", say(&format!("tuning the constants raised the loss from {:e} to {:e}", p.loss.to64(), c.loss.to64())));
        }
        Ok(())
    }
}

/// Which mutations are on: a few, or those of the session.
fn switches<T: Flt, const D: usize>(c: &Cfg, s: &mut Sess<T, D>, r: &mut R) {
    if c.flag("few", 70) {
        let mut w = [0.0; 12];
        for _ in 0..1 + r.below(3) {
            w[r.below(12) as usize] = 0.05 + r.f();
        }
        let m = &mut s.opt.mutation_weights;
        [m.mutate_constant, m.mutate_operator, m.mutate_feature, m.swap_operands, m.rotate_tree, m.add_node] = [w[0], w[1], w[2], w[3], w[4], w[5]];
        [m.insert_node, m.delete_node, m.simplify, m.randomize, m.do_nothing, m.optimize] = [w[6], w[7], w[8], w[9], w[10], w[11]];
    }
    s.opt.should_simplify = c.flag("simp27", 50);
    s.opt.should_optimize_constants = c.flag("opt27", 50);
    s.opt.optimizer_probability = [0.0, 0.3, 1.0][c.get("optp27", |r| *r.pick(&[0, 1, 1, 2])) as usize];
}

pub fn c27<T: Flt, const D: usize>(c: &Cfg) -> Out {
    match c.get("mode27", |r| r.below(10) as i64) {
        0 | 1 => return still::<T, D>(c),
        2 => return kinds::<T, D>(c),
        3 => return acceptance::<T, D>(c),
        _ => (),
    }
    let mut s = session::<T, D>(c, "");
    let mut r = c.rng("unit");
    switches(c, &mut s, &mut r);
    if c.flag("hugepars", 4) {
        // costs overflow beyond a size although losses do not
        s.opt.parsimony = if T::F32 { f32::MAX as f64 } else { f64::MAX } * [0.03, 0.1, 0.3][r.below(3) as usize];
        if r.below(2) == 0 {
            (s.opt.annealing, s.opt.use_frequency) = (false, r.below(2) == 0);
        }
    }
    let base = s.spec().baseline().map(T::from64);
    let n = s.data.n_rows;
    let tagged = TaggedDataset::new(&s.data, base);
    let mut evr: Evaluator<T, D> = Evaluator::new(n);
    let mut rng = fastrand::Rng::with_seed(r.next());
    let mut stats = RunningSearchStatistics::new(s.opt.maxsize, 1000);
    let (mut id, mut birth) = (1u64 << 33, 50u64);
    let on: Vec<usize> = weights(&s).iter().enumerate().filter(|(_, w)| **w > 0.0).map(|(i, _)| i).collect();
    let new = |e, id: &mut u64, birth: &mut u64, evr: &mut Evaluator<T, D>| {
        let mut m: Member<T, D> = PopMember::from_expr(MemberId(*id), None, *birth, e, s.data.n_features);
        *id += 1;
        *birth += 1;
        m.evaluate(&tagged, &s.opt, evr);
        m
    };
    let pct = c.pick("oppanic", &[0, 0, 5, 30]) as u64;
    // single mutations, a chain of them
    let mut cur: Option<Member<T, D>> = None;
    for k in 0..c.range("gens", 3, 80) {
        let m = match cur.take() {
            Some(m) if r.below(12) != 0 => m,
            _ => new(expr(&s, &mut r, s.opt.maxsize.max(2) as u64, s.data.n_features), &mut id, &mut birth, &mut evr),
        };
        stats.update_from_population([m.complexity]);
        stats.move_window();
        stats.normalize();
        let cms = if r.below(4) == 0 { 1 + r.below(s.opt.maxsize as u64) as usize } else { s.opt.maxsize };
        let temp = [0.0, 0.3, 1.0][r.below(3) as usize];
        let abort = r.below(100) < pct;
        if abort {
            opf().garbage = true;
            opf().panic_in = Some(r.below(20));
        }
        let out = caught(|| {
            next_generation(
                &m,
                NextGenerationCtx {
                    rng: &mut rng,
                    dataset: tagged,
                    temperature: temp,
                    curmaxsize: cms,
                    stats: &stats,
                    options: &s.opt,
                    evaluator: &mut evr,
                    next_id: &mut id,
                    next_birth: &mut birth,
                    _ops: core::marker::PhantomData::<Ops<T>>,
                },
            )
        });
        opf().panic_in = None;
        let Ok((baby, accepted, _)) = out else {
            probe("mutations_aborted", 1);
            cur = Some(m);
            continue;
        };
        report::log(baby.complexity as u64);
        let rules = Rules { s: &s, on: on.clone(), cms: cms.min(s.opt.maxsize), temp };
        let say = |x: &str| format!("mutation {k} at size limit {cms}, temperature {temp}: [{}] -> [{}]: {x}", oracle::show_expr(&m), oracle::show_expr(&baby));
        if accepted {
            probe("accepted", 1);
            if !baby.cost.to64().is_finite() && m.cost.to64().is_finite() {
                return bad("acceptance", say(&format!("a child of cost {} was accepted", baby.cost.to64())));
            }
            rules.judge(&m, &baby, &say)?;
        } else if !oracle::same_expr(&m, &baby) {
            return bad("change", say("a rejected mutation changed the equation"));
        } else {
            probe("rejected", 1);
        }
        cur = Some(if accepted { baby } else { m });
    }
    // a population whose members only change this way
    let size = c.pick("members", &[1, 2, 3, 5, 8]) as usize;
    s.opt.crossover_probability = 0.0;
    s.opt.tournament_selection_n = size;
    let mut pop = Population::new((0..size).map(|_| {
        let e = expr(&s, &mut r, s.opt.maxsize.max(2) as u64, s.data.n_features);
        let mut m: Member<T, D> = PopMember::from_expr(MemberId(id), None, birth, e, s.data.n_features);
        id += 1;
        birth += 1;
        m.evaluate(&tagged, &s.opt, &mut evr);
        m
    }).collect());
    for k in 0..c.range("cycles27", 0, 25) {
        let old = pop.members.clone();
        let temp = [0.0, 0.3, 1.0][r.below(3) as usize];
        let id0 = id;
        reg_evol_cycle(
            &mut pop,
            RegEvolCtx {
                rng: &mut rng,
                dataset: tagged,
                temperature: temp,
                curmaxsize: s.opt.maxsize,
                stats: &stats,
                options: &s.opt,
                evaluator: &mut evr,
                next_id: &mut id,
                next_birth: &mut birth,
                _ops: core::marker::PhantomData::<Ops<T>>,
            },
        );
        let rules = Rules { s: &s, on: on.clone(), cms: s.opt.maxsize, temp };
        for m in pop.members.iter().filter(|m| m.id.0 >= id0) {
            let Some(p) = old.iter().find(|o| Some(o.id) == m.parent) else { continue };
            if oracle::same_expr(p, m) && !s.opt.skip_mutation_failures {
                continue;
            }
            let say = |x: &str| format!("cycle {k} at temperature {temp}: [{}] -> [{}]: {x}", oracle::show_expr(p), oracle::show_expr(m));
            rules.judge(p, m, &say)?;
            probe("children_in_populations", 1);
        }
    }
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    Ok(())
}

/// A search in which everything that changes an equation is switched off: no new equation may ever be shown.
fn still<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    let mut r = c.rng("unit");
    let m = &mut s.opt.mutation_weights;
    [m.mutate_constant, m.mutate_operator, m.mutate_feature, m.swap_operands, m.rotate_tree, m.add_node] = [0.0; 6];
    [m.insert_node, m.delete_node, m.randomize] = [0.0; 3];
    // these two have a switch of their own
    m.simplify = [0.0, 1.0][r.below(2) as usize];
    m.optimize = [0.0, 1.0][r.below(2) as usize];
    m.do_nothing = [0.0, 1.0][r.below(2) as usize];
    s.opt.crossover_probability = 0.0;
    s.opt.should_simplify = false;
    if r.below(2) == 0 {
        s.opt.should_optimize_constants = false;
    } else {
        s.opt.should_optimize_constants = true;
        s.opt.optimizer_probability = 0.0;
    }
    let mut e: SearchEngine<T, Ops<T>, D> = SearchEngine::new(s.data.clone(), s.opt.clone());
    let show = |e: &SearchEngine<T, Ops<T>, D>| -> Vec<(u64, String)> {
        e.hall_of_fame()
            .members()
            .map(|m| {
                let mut h = Fnv::default();
                digest_expr(&mut h, m);
                (h.0, oracle::show_expr(m))
            })
            .collect()
    };
    let first = show(&e);
    let mut n = 0;
    while !e.is_finished() && n < 200 {
        e.step(1 + r.below(3) as usize);
        n += 1;
        let now = show(&e);
        report::log(now.len() as u64);
        if let Some(x) = now.iter().find(|x| !first.contains(x)) {
            return bad("new-equation", format!("every kind of change is switched off, but after step {n} the hall of fame shows [{}], which was in no population", x.1));
        }
        probe("still_steps", 1);
    }
    report::rep().nontrivial = n > 0;
    report::rep().runs += 1;
    Ok(())
}

/// Is a count of `low` to `high` out of `all` impossible when each comes with probability `p`?
pub fn impossible(low: f64, high: f64, all: f64, p: f64) -> bool {
    let e = p.clamp(1e-12, 1.0 - 1e-12) * all;
    let g = if low > e { low } else if high < e { high } else { return false };
    xlog(g, e) + xlog(all - g, all - e) > RARE
}

/// One mutation of `m`, with the options as they are.
struct Bench<'a, T: Flt, const D: usize> {
    tagged: TaggedDataset<'a, T>,
    stats: RunningSearchStatistics,
    rng: fastrand::Rng,
    evr: Evaluator<T, D>,
    id: u64,
    birth: u64,
}
impl<T: Flt, const D: usize> Bench<'_, T, D> {
    fn member(&mut self, e: Expr<T, D>, o: &symbolic_regression::Options<T, D>) -> Member<T, D> {
        let mut m: Member<T, D> = PopMember::from_expr(MemberId(self.id), None, self.birth, e, self.tagged.n_features);
        self.id += 1;
        self.birth += 1;
        m.evaluate(&self.tagged, o, &mut self.evr);
        m
    }
    fn mutate(&mut self, m: &Member<T, D>, o: &symbolic_regression::Options<T, D>, temperature: f64) -> (Member<T, D>, bool) {
        let (b, ok, _) = next_generation(
            m,
            NextGenerationCtx {
                rng: &mut self.rng,
                dataset: self.tagged,
                temperature,
                curmaxsize: o.maxsize,
                stats: &self.stats,
                options: o,
                evaluator: &mut self.evr,
                next_id: &mut self.id,
                next_birth: &mut self.birth,
                _ops: core::marker::PhantomData::<Ops<T>>,
            },
        );
        (b, ok)
    }
}
fn bench<'a, T: Flt, const D: usize>(s: &'a Sess<T, D>, r: &mut R, stats: RunningSearchStatistics) -> Bench<'a, T, D> {
    let base = s.spec().baseline().map(T::from64);
    Bench { tagged: TaggedDataset::new(&s.data, base), stats, rng: fastrand::Rng::with_seed(r.next()), evr: Evaluator::new(s.data.n_rows), id: 1 << 33, birth: 50 }
}

/// How often is each kind tried? The same parent is mutated many times; what happened is read off the child's size.
fn kinds<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let s = session::<T, D>(c, "");
    let mut r = c.rng("unit");
    let mut o = s.opt.clone();
    (o.annealing, o.use_frequency) = (false, false);
    (o.maxsize, o.maxdepth) = (200, 200);
    o.complexity_of_constants = 1;
    o.complexity_of_variables = 1;
    o.variable_complexities = None;
    o.operator_complexity_overrides.clear();
    o.op_constraints = Default::default();
    o.nested_constraints = Default::default();
    let mut b = bench(&s, &mut r, RunningSearchStatistics::new(o.maxsize, 1000));
    let parent = (0..50).map(|_| expr(&s, &mut r, 15, s.data.n_features)).find(|e| !N::of(&b.member(e.clone(), &o)).leaf());
    let Some(parent) = parent else { return Ok(()) };
    let parent = b.member(parent, &o);
    let tree = N::of(&parent);
    let feature = s.data.n_features > 1 && tree.any(&|n| matches!(n, N::Var(_)));
    // grow by two ways, shrink, another feature, nothing
    let mut w = [0.0; 5];
    for x in w.iter_mut() {
        *x = if r.below(3) == 0 { 0.0 } else { [0.01, 1.0, 3.0, 40.0][r.below(4) as usize] * (0.2 + r.f()) };
    }
    if w.iter().sum::<f64>() == 0.0 {
        w[4] = 1.0;
    }
    let m = &mut o.mutation_weights;
    [m.mutate_constant, m.mutate_operator, m.swap_operands, m.rotate_tree, m.simplify, m.randomize, m.optimize] = [0.0; 7];
    [m.add_node, m.insert_node, m.delete_node, m.mutate_feature, m.do_nothing] = w;
    if !feature {
        w[3] = 0.0;
        // without a variable the mutation may be tried, and fails
        o.mutation_weights.mutate_feature = 0.0;
        if w.iter().sum::<f64>() == 0.0 {
            return Ok(());
        }
    }
    let sum: f64 = w.iter().sum();
    let p = [(w[0] + w[1]) / sum, w[2] / sum, w[3] / sum, w[4] / sum];
    let all = 400;
    let mut got = [0u64; 4];
    for _ in 0..all {
        let (baby, ok) = b.mutate(&parent, &o, r.f());
        if !ok {
            continue;
        }
        let t = N::of(&baby);
        let k = match t.size().cmp(&tree.size()) {
            std::cmp::Ordering::Greater => 0,
            std::cmp::Ordering::Less => 1,
            _ if t == tree => 3,
            _ => 2,
        };
        got[k] += 1;
    }
    report::log(got[0] << 20 | got[1] << 10 | got[2]);
    let lost = all - got.iter().sum::<u64>();
    for (k, name) in ["grows", "shrinks", "gets another feature", "stays as it is"].iter().enumerate() {
        if impossible(got[k] as f64, (got[k] + lost) as f64, all as f64, p[k]) {
            return bad("how-often", format!("weights add {} insert {} delete {} feature {} nothing {}: [{}] {name} {} of {all} times ({lost} rejected), expected {:.1}", w[0], w[1], w[2], w[3], w[4], oracle::show_expr(&parent), got[k], p[k] * all as f64));
        }
    }
    probe("kinds_drawn", all);
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    Ok(())
}

/// How often is a child accepted? The parent has one possible child, so its cost is known beforehand.
fn acceptance<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    let mut r = c.rng("unit");
    s.opt.maxsize = s.opt.maxsize.max(6);
    let mut o = s.opt.clone();
    o.annealing = r.below(4) != 0;
    o.use_frequency = r.below(2) == 0;
    o.alpha = [0.05, 0.3, 1.0, 3.17, 50.0][r.below(5) as usize];
    // the frequencies of sizes: counted from one
    let window = [1000.0f64, 300.0, 60.0, 100_000.0][r.below(4) as usize].max(o.maxsize as f64);
    let mut stats = RunningSearchStatistics::new(o.maxsize, window as usize);
    let mut count = vec![1.0f64; o.maxsize];
    let fav = r.below(o.maxsize as u64 + 1);
    let mut worn = false;
    for _ in 0..r.below(12) {
        let sizes: Vec<usize> = (0..r.below(40)).map(|_| if r.below(2) == 0 { fav } else { r.below(o.maxsize as u64 + 3) } as usize).collect();
        for &x in &sizes {
            if x > 0 && x <= o.maxsize {
                count[x - 1] += 1.0;
            }
        }
        stats.update_from_population(sizes);
        if window > 1e4 && r.below(3) == 0 {
            // a long search: one size dominates
            let (x, n) = (1 + r.below(o.maxsize as u64) as usize, r.below(20_000));
            stats.update_from_population((0..n).map(|_| x));
            count[x - 1] += n as f64;
        }
        stats.move_window();
        // beyond the window the counts are worn down to it, in the end
        worn |= count.iter().sum::<f64>() > window;
    }
    stats.normalize();
    let sum: f64 = count.iter().sum();
    for (i, v) in count.iter().enumerate() {
        let f = stats.freq(i + 1);
        if !worn && (f - v / sum).abs() > 1e-9 + 1e-9 * f {
            return bad("frequency", format!("size {} has frequency {f}, expected {}", i + 1, v / sum));
        }
    }
    let freq: Vec<f64> = (0..=o.maxsize).map(|x| if worn { stats.freq(x) } else if x == 0 { 1e-6 } else { count[x - 1] / sum }).collect();
    let mut b = bench(&s, &mut r, stats);
    let m = &mut o.mutation_weights;
    [m.mutate_constant, m.mutate_operator, m.mutate_feature, m.swap_operands, m.rotate_tree, m.add_node] = [0.0; 6];
    [m.insert_node, m.delete_node, m.simplify, m.randomize, m.do_nothing, m.optimize] = [0.0; 6];
    // a unary operator over a leaf shrinks to the leaf; a binary one over two leaves swaps them; or nothing happens at all
    let way = r.below(3);
    let (mut parent, mut child) = (None, None);
    for _ in 0..200 {
        let mut e = expr(&s, &mut r, 3, s.data.n_features);
        dynamic_expressions::compress_constants(&mut e);
        let m = b.member(e.clone(), &o);
        let mut e2 = e.clone();
        match (way, &m.expr.nodes[..]) {
            (0, [_, PNode::Op { arity: 1, .. }]) => {
                o.mutation_weights.delete_node = 1.0;
                e2.nodes.pop();
            }
            (1, [_, _, PNode::Op { arity: 2, .. }]) => {
                o.mutation_weights.swap_operands = 1.0;
                match m.expr.consts.len() {
                    2 => e2.consts.swap(0, 1), // constants are numbered in the order of the nodes
                    _ => e2.nodes.swap(0, 1),
                }
            }
            (2, _) => o.mutation_weights.do_nothing = 1.0,
            _ => continue,
        }
        child = Some(b.member(e2, &o));
        parent = Some(m);
        break;
    }
    let (Some(parent), Some(child)) = (parent, child) else { return Ok(()) };
    let spec = s.spec();
    if parent.cost.to64().is_nan() || spec.constraints(&spec.tree(&child).map_err(|e| bad::<()>("tree", e).unwrap_err())?, o.maxsize).is_err() {
        return Ok(());
    }
    let temp = [0.0, 1e-3, 0.1, 0.5, 1.0][r.below(5) as usize];
    let delta = child.cost.to64() - parent.cost.to64();
    let mut p = 1.0;
    if o.annealing {
        p *= (-delta / (temp * o.alpha)).exp();
    }
    if o.use_frequency {
        let f = |x: usize| freq.get(x).copied().unwrap_or(1e-6);
        p *= f(parent.complexity) / f(child.complexity);
    }
    let p = if !child.cost.to64().is_finite() { 0.0 } else if p.is_nan() { 1.0 } else { p.clamp(0.0, 1.0) };
    let all = 400;
    let mut got = 0;
    for _ in 0..all {
        let (baby, ok) = b.mutate(&parent, &o, temp);
        if !oracle::same_expr(&baby, if ok { &child } else { &parent }) {
            return bad("change", format!("[{}] became [{}], only [{}] is possible", oracle::show_expr(&parent), oracle::show_expr(&baby), oracle::show_expr(&child)));
        }
        got += ok as u64;
    }
    report::log(got);
    if impossible(got as f64, got as f64, all as f64, p) {
        return bad("acceptance", format!("[{}] (cost {:e}) -> [{}] (cost {:e}) at temperature {temp}, alpha {}, annealing {}, frequencies {}: accepted {got} of {all} times, expected {:.1}", oracle::show_expr(&parent), parent.cost.to64(), oracle::show_expr(&child), child.cost.to64(), o.alpha, o.annealing, o.use_frequency, p * all as f64));
    }
    probe("acceptances_drawn", all);
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    Ok(())
}
