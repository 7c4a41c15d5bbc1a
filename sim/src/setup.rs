//! Builds the dataset and options of a run from its configuration.
use crate::cfg::Cfg;
use crate::ops::{Flt, LossCell, SimLoss, SimOps};
use crate::oracle::Spec;
use dynamic_expressions::{OpId, OperatorSet};
use ndarray::{Array1, Array2};
use std::sync::Arc;
use symbolic_regression::{make_loss, Dataset, LossKind, MutationWeights, Operators, Options, OutputStyle};

pub struct Sess<T: Flt, const D: usize> {
    pub data: Dataset<T>,
    pub opt: Options<T, D>,
    pub kind: LossKind,
    pub cell: Arc<LossCell<T>>,
}
impl<T: Flt, const D: usize> Sess<T, D> {
    pub fn spec(&self) -> Spec<'_, T, D> {
        Spec { data: &self.data, opt: &self.opt, kind: self.kind }
    }
    /// Same data and options with a loss wrapper (and log) of its own.
    pub fn fresh(&self) -> Sess<T, D> {
        let batch = if self.opt.batching { self.opt.batch_size.max(1) } else { 0 };
        let cell = LossCell::new(loss_object::<T>(self.kind), self.data.y_slice(), self.data.weights_slice(), batch);
        cell.log().skip = self.opt.use_baseline as u64;
        let mut opt = self.opt.clone();
        opt.loss = Arc::new(SimLoss(cell.clone()));
        Sess { data: self.data.clone(), opt, kind: self.kind, cell }
    }
}

pub fn op_by_name<T: Flt>(name: &str) -> OpId {
    for a in 1..=3u8 {
        for &id in <T::B as OperatorSet>::ops_with_arity(a) {
            let op = OpId { arity: a, id };
            if <T::B as OperatorSet>::meta(op).is_some_and(|m| m.name == name) {
                return op;
            }
        }
    }
    crate::report::harness_error(&format!("no operator {name}"))
}
const UNARY: [&str; 30] = [
    "abs", "abs2", "acos", "acosh", "asin", "asinh", "atan", "atanh", "cbrt", "cos", "cosh", "cot", "csc", "exp", "exp2",
    "expm1", "identity", "inv", "log", "log1p", "log2", "log10", "neg", "sec", "sign", "sin", "sinh", "sqrt", "tan", "tanh",
];
const BINARY: [&str; 8] = ["add", "sub", "mul", "div", "max", "min", "pow", "atan2"];
const TERNARY: [&str; 2] = ["clamp", "fma"];
const TAME_U: [&str; 6] = ["abs", "cos", "sin", "neg", "tanh", "abs2"];

pub fn dataset<T: Flt>(c: &Cfg, tag: &str) -> Dataset<T> {
    let k = |s: &str| format!("{tag}{s}");
    let mut r = c.rng(&k("data"));
    let n = c.get(&k("rows"), |r| *r.pick(&[1, 2, 3, 5, 6, 8, 11, 12, 17, 22, 24, 33, 40, 47, 65])) as usize;
    let f = c.get(&k("feats"), |r| *r.pick(&[1, 1, 2, 2, 3, 4])) as usize;
    // 7 and 8 are exact: an equation with zero loss exists
    let target = c.get(&k("target"), |r| *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 7, 8]));
    let scale = c.pick(&k("xscale"), &[0, 0, 0, 1, 2]);
    let s = [1.0, 30.0, 0.01][scale as usize];
    let mut x = Array2::<T>::zeros((f, n));
    for i in 0..f {
        for j in 0..n {
            let v = match r.below(12) {
                0 => (r.range(-3, 3)) as f64,
                _ => (r.f() * 4.0 - 2.0) * s,
            };
            x[(i, j)] = T::from64(v);
        }
    }
    // one row unlike the others: what is only wrong there decides alone
    if c.flag(&k("odd_row"), 20) {
        let j = if r.below(2) == 0 { n - 1 } else { r.below(n as u64) as usize };
        let v = *r.pick(&[0.0, 0.0, -1.0, 1.0, 700.0, -40.0]);
        for i in 0..f {
            for k in 0..n {
                x[(i, k)] = x[(i, k)].abs() + T::from64(0.5);
            }
            x[(i, j)] = T::from64(v);
        }
    }
    let mut y = Array1::<T>::zeros(n);
    let off = r.f() * 3.0 - 1.5;
    for j in 0..n {
        let a = x[(0, j)].to64();
        let b = x[(f - 1, j)].to64();
        let v = match target {
            0 => 2.0 * a + off,
            1 => (a * 1.3).sin() + b,
            2 => a * b,
            3 => off,
            4 => r.f() * 2.0 - 1.0,
            5 => a * a + b * 0.5 - off,
            7 => a,
            8 => a * b,
            _ => (a.abs() + 0.5).ln() * off,
        };
        y[j] = T::from64(if target >= 7 { v } else { v + (j as f64) * 1e-4 });
    }
    let w = match c.get(&k("weights"), |r| *r.pick(&[0, 0, 0, 1, 2])) {
        0 => None,
        m => {
            let mut w = Array1::<T>::zeros(n);
            for j in 0..n {
                let z = m == 2 && r.below(4) == 0 && j > 0;
                w[j] = T::from64(if z { 0.0 } else { 0.25 + r.f() * 3.0 + (j as f64) * 1e-3 });
            }
            Some(w)
        }
    };
    let style = c.get(&k("nameskind"), |r| r.below(4) as i64);
    let name = |i: usize| match style {
        0 | 1 => format!("v{i}"),
        2 => format!("größe_δ{i}"),
        _ => format!("a_rather_long_name_for_the_变量_number_{i}"),
    };
    let names = if c.flag(&k("names"), 30) { (0..f).map(name).collect() } else { Vec::new() };
    given(x, y, w, names, c.get(&k("layout"), |r| *r.pick(&[0, 0, 0, 1, 2, 3, 4])))
}

/// The dataset of these numbers, handed over as arrays of another memory layout.
fn given<T: Flt>(x: Array2<T>, y: Array1<T>, w: Option<Array1<T>>, names: Vec<String>, layout: i64) -> Dataset<T> {
    let (x0, y0, w0) = (x.clone(), y.clone(), w.clone());
    // a column taken out of a table of two, or one that is read backwards
    let column = |v: Array1<T>, layout: i64| -> Array1<T> {
        match layout {
            2 | 4 => {
                let mut t = Array2::<T>::zeros((v.len(), 2));
                t.column_mut(1).assign(&v);
                t.index_axis_move(ndarray::Axis(1), 1)
            }
            3 => {
                let n = v.len();
                let mut b = Array1::from_iter((0..n).map(|i| v[n - 1 - i]));
                b.invert_axis(ndarray::Axis(0));
                b
            }
            _ => v,
        }
    };
    let x = match layout {
        1 | 2 => {
            // one row of the table per data row
            let mut t = Array2::<T>::zeros((x.ncols(), x.nrows()));
            t.assign(&x.t());
            t.reversed_axes()
        }
        3 => {
            let mut b = Array2::<T>::zeros(x.dim());
            b.invert_axis(ndarray::Axis(1));
            b.assign(&x);
            b
        }
        _ => x,
    };
    let d = Dataset::with_weights_and_names(x, column(y, layout % 4), w.map(|w| column(w, layout)), names);
    if d.x != x0 || d.y_slice() != y0.as_slice().unwrap() || d.weights_slice() != w0.as_ref().and_then(|w| w.as_slice()) {
        crate::report::violation("dataset", &format!("the dataset does not hold the numbers it was given (memory layout {layout}, weights given {}, weights used {})", w0.is_some(), d.weights_slice().is_some()));
    }
    d
}

fn operators<T: Flt, const D: usize>(c: &Cfg, tag: &str) -> Operators<D> {
    let k = |s: &str| format!("{tag}{s}");
    let mut r = c.rng(&k("ops"));
    let style = c.get(&k("opstyle"), |r| *r.pick(&[0, 1, 1, 2, 2, 3]));
    let mut ops = Operators::<D>::new();
    let push = |ops: &mut Operators<D>, n: &str| {
        let id = op_by_name::<T>(n);
        if !ops.ops_by_arity[id.arity as usize - 1].contains(&id) {
            ops.push(id);
        }
    };
    for n in ["add", "sub", "mul"] {
        if style != 3 || r.below(2) == 0 {
            push(&mut ops, n);
        }
    }
    match style {
        0 => {}
        1 => {
            push(&mut ops, "div");
            for _ in 0..2 {
                push(&mut ops, *r.pick(&TAME_U));
            }
        }
        _ => {
            for _ in 0..1 + r.below(4) {
                push(&mut ops, *r.pick(&UNARY));
            }
            for _ in 0..1 + r.below(3) {
                push(&mut ops, *r.pick(&BINARY));
            }
        }
    }
    if D >= 3 && c.flag(&k("ternary"), 50) {
        push(&mut ops, *r.pick(&TERNARY));
    }
    ops
}

/// The loss of a kind; kinds with the usual parameters are asked for by name, as a user would.
fn loss_object<T: Flt>(kind: LossKind) -> symbolic_regression::LossObject<T> {
    let name = match kind {
        LossKind::Mse => "mse",
        LossKind::Mae => " MAE",
        LossKind::Rmse => "rmse",
        LossKind::LogCosh => "logcosh",
        LossKind::Huber { delta: 1.0 } => "huber",
        LossKind::Lp { p: 2.0 } => "Lp ",
        LossKind::Quantile { tau: 0.5 } => "quantile",
        LossKind::EpsilonInsensitive { eps: 0.1 } => "eps-insensitive",
        _ => return make_loss::<T>(kind),
    };
    make_loss::<T>(LossKind::parse(name).expect("a loss of this name"))
}

pub fn kind(c: &Cfg, tag: &str) -> LossKind {
    let usual = c.get(&format!("{tag}lossusual"), |r| r.below(3) as i64) == 0;
    match c.get(&format!("{tag}loss"), |r| *r.pick(&[0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7])) {
        0 => LossKind::Mse,
        1 => LossKind::Mae,
        2 => LossKind::Rmse,
        3 => LossKind::Huber { delta: if usual { 1.0 } else { 0.8 } },
        4 => LossKind::LogCosh,
        5 => LossKind::Lp { p: if usual { 2.0 } else { 1.5 } },
        6 => LossKind::Quantile { tau: if usual { 0.5 } else { 0.3 } },
        _ => LossKind::EpsilonInsensitive { eps: if usual { 0.1 } else { 0.2 } },
    }
}

pub fn session<T: Flt, const D: usize>(c: &Cfg, tag: &str) -> Sess<T, D> {
    let k = |s: &str| format!("{tag}{s}");
    let data = dataset::<T>(c, tag);
    let kind = kind(c, tag);
    let mut o = Options::<T, D>::default();
    o.operators = operators::<T, D>(c, tag);
    let big = c.get(&k("scale"), |r| *r.pick(&[0, 0, 0, 1, 1, 2]));
    o.seed = c.range(&k("seed"), 0, 1 << 30) as u64;
    o.niterations = c.range(&k("iters"), 1, [3, 4, 6][big as usize]) as usize;
    o.populations = c.range(&k("pops"), 1, [3, 5, 8][big as usize]) as usize;
    o.population_size = c.range(&k("popsize"), 1, [8, 14, 40][big as usize]) as usize;
    o.ncycles_per_iteration = c.range(&k("ncycles"), 0, [8, 16, 40][big as usize]) as usize;
    o.batching = c.flag(&k("batching"), 20);
    o.batch_size = c.range(&k("batchsize"), 0, 50) as usize;
    o.maxsize = c.get(&k("maxsize"), |r| *r.pick(&[1, 2, 3, 5, 7, 7, 10, 10, 12, 12, 15, 15, 20, 20, 30, 30])) as usize;
    o.maxdepth = c.get(&k("maxdepth"), |r| *r.pick(&[2, 3, 4, 6, 10, 30, 30, 30])) as usize;
    o.warmup_maxsize_by = [0.0, 0.0, 0.0, 0.25, 0.5, 1.0][c.get(&k("warmup"), |r| *r.pick(&[0, 0, 3, 4, 5])) as usize];
    o.parsimony = [0.0, 0.0, 0.001, 0.05, 1.0][c.range(&k("parsimony"), 0, 4) as usize];
    o.adaptive_parsimony_scaling = [1040.0, 20.0, 0.0][c.range(&k("adaptive"), 0, 2) as usize];
    o.crossover_probability = [0.0259, 0.3, 0.0, 0.9, 1.0][c.range(&k("crossover"), 0, 4) as usize];
    o.perturbation_factor = [0.129, 1.0, 0.01, 0.0, 1e6][c.range(&k("perturb"), 0, 4) as usize];
    o.probability_negate_constant = [0.00743, 0.3, 0.0, 1.0][c.range(&k("negate"), 0, 3) as usize];
    let tn = c.get(&k("tourn"), |r| *r.pick(if big == 2 { &[1, 3, 5, 15, 25, 35][..] } else { &[1, 2, 3, 5, 15][..] })) as usize;
    o.tournament_selection_n = tn;
    o.tournament_selection_p = [0.982f32, 0.6, 1.0, 0.01][c.range(&k("tournp"), 0, 3) as usize];
    o.alpha = [3.17, 0.5, 1e-3, 0.0][c.get(&k("alpha"), |r| *r.pick(&[0, 0, 0, 1, 1, 2, 3])) as usize];
    o.optimizer_nrestarts = c.get(&k("nrestarts"), |r| *r.pick(&[0, 1, 2, 2, 5])) as usize;
    o.optimizer_probability = [0.14, 0.5, 1.0, 0.0][c.range(&k("optprob"), 0, 3) as usize];
    o.optimizer_iterations = c.range(&k("optiters"), 0, 8) as usize;
    o.optimizer_f_calls_limit = [1_000, 20, 5, 1, 0][c.get(&k("optcalls"), |r| *r.pick(&[0, 0, 1, 1, 2, 2, 3, 4])) as usize];
    o.fraction_replaced = [0.00036, 0.1, 0.5, 2.0, 0.0][c.range(&k("fracrep"), 0, 4) as usize];
    o.fraction_replaced_hof = [0.0614, 0.3, 0.0, 2.0][c.range(&k("frachof"), 0, 3) as usize];
    o.topn = c.get(&k("topn"), |r| *r.pick(&[0, 1, 2, 2, 5, 5, 12, 12])) as usize;
    o.use_frequency = c.flag(&k("usefreq"), 60);
    o.use_frequency_in_tournament = c.flag(&k("usefreqt"), 60);
    o.skip_mutation_failures = c.flag(&k("skipfail"), 70);
    o.annealing = c.flag(&k("annealing"), 60);
    o.should_optimize_constants = c.flag(&k("optconst"), 60);
    o.migration = c.flag(&k("migration"), 70);
    o.hof_migration = c.flag(&k("hofmig"), 70);
    o.use_baseline = c.flag(&k("baseline"), 80);
    o.progress = c.flag(&k("progress"), 0);
    o.should_simplify = c.flag(&k("simplify"), 60);
    o.output_style = [OutputStyle::Plain, OutputStyle::Auto, OutputStyle::Ansi][c.range(&k("style"), 0, 2) as usize];
    let mut m = MutationWeights::default();
    match c.get(&k("mutw"), |r| *r.pick(&[0, 1, 1, 2, 3])) {
        0 => {}
        1 => {
            // swarm: every mutation likely, some switched off
            let mut r = c.rng(&k("mutw"));
            let mut v = || if r.below(5) == 0 { 0.0 } else { 0.1 + r.f() };
            m.mutate_constant = v();
            m.mutate_operator = v();
            m.mutate_feature = v();
            m.swap_operands = v();
            m.rotate_tree = v();
            m.add_node = v();
            m.insert_node = v();
            m.delete_node = v();
            m.randomize = v();
            m.do_nothing = 0.2 + v();
        }
        3 => {
            // one or two kinds only, which may not apply to every member
            let mut r = c.rng(&k("mutw"));
            let mut w = [0.0; 10];
            for _ in 0..1 + r.below(2) {
                w[r.below(10) as usize] = 0.1 + r.f();
            }
            [m.mutate_constant, m.mutate_operator, m.mutate_feature, m.swap_operands, m.rotate_tree] = [w[0], w[1], w[2], w[3], w[4]];
            [m.add_node, m.insert_node, m.delete_node, m.randomize, m.do_nothing] = [w[5], w[6], w[7], w[8], w[9]];
        }
        _ => {
            m.add_node = 6.0;
            m.insert_node = 2.0;
            m.randomize = 0.5;
        }
    }
    m.simplify = [0.0, 0.00209, 0.5][c.get(&k("mwsimplify"), |r| *r.pick(&[0, 0, 1, 2])) as usize];
    m.optimize = [0.0, 0.3][c.get(&k("mwoptimize"), |r| *r.pick(&[0, 0, 1])) as usize];
    o.mutation_weights = m;
    // complexity
    if c.flag(&k("customcx"), 25) {
        let mut r = c.rng(&k("cx"));
        o.complexity_of_constants = r.range(1, 3) as u16;
        o.complexity_of_variables = r.range(1, 2) as u16;
        if r.below(2) == 0 {
            let nf = data.n_features;
            let len = if r.below(3) == 0 { nf.saturating_sub(1) } else { nf };
            o.variable_complexities = Some((0..len).map(|_| r.range(1, 4) as u16).collect());
        }
        for v in o.operators.ops_by_arity.iter() {
            for op in v {
                if r.below(2) == 0 {
                    let lo = if r.below(6) == 0 { 0 } else { 1 };
                    o.operator_complexity_overrides.insert(*op, r.range(lo, 4) as u16);
                }
            }
        }
    }
    if c.flag(&k("arglim"), 30) {
        let mut r = c.rng(&k("arglim"));
        for v in o.operators.ops_by_arity.clone() {
            for op in v {
                if r.below(2) == 0 {
                    let a = r.below(op.arity as u64) as usize;
                    o.op_constraints.set_op_arg_constraint(op, a, r.range(1, 6) as u16);
                }
            }
        }
    }
    if c.flag(&k("nestlim"), 30) {
        let mut r = c.rng(&k("nestlim"));
        let all: Vec<OpId> = o.operators.ops_by_arity.iter().flatten().copied().collect();
        for _ in 0..1 + r.below(4) {
            let a = *r.pick(&all);
            let b = *r.pick(&all);
            o.nested_constraints.add_nested_constraint(a, b, r.range(0, 2) as u8);
        }
    }
    let batch = if o.batching { o.batch_size.max(1) } else { 0 };
    let cell = LossCell::new(loss_object::<T>(kind), data.y_slice(), data.weights_slice(), batch);
    cell.log().skip = o.use_baseline as u64;
    o.loss = Arc::new(SimLoss(cell.clone()));
    Sess { data, opt: o, kind, cell }
}

pub type Ops<T> = SimOps<<T as Flt>::B>;
