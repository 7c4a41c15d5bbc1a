//! The reference model: an independent, deliberately plain reading of what a reported equation means.
use crate::ops::{hole, Flt, SimOps};
use dynamic_expressions::node::PNode;
use dynamic_expressions::{OpId, OperatorSet};
use symbolic_regression::{Dataset, HallOfFame, LossKind, Options, PopMember};

pub type Member<T, const D: usize> = PopMember<T, SimOps<<T as Flt>::B>, D>;
pub type Hall<T, const D: usize> = HallOfFame<T, SimOps<<T as Flt>::B>, D>;

pub enum Tree {
    Var(usize),
    Const(usize),
    Op(OpId, Vec<Tree>),
}

/// Reads the postfix program; Err when it is not a well-formed expression over this dataset.
pub fn parse<T: Flt, const D: usize>(nodes: &[PNode], n_consts: usize, n_features: usize) -> Result<Tree, String> {
    let mut st: Vec<Tree> = Vec::new();
    let mut used = vec![false; n_consts];
    for n in nodes {
        match *n {
            PNode::Var { feature } => {
                if feature as usize >= n_features {
                    return Err(format!("feature x{feature} does not exist"));
                }
                st.push(Tree::Var(feature as usize));
            }
            PNode::Const { idx } => {
                if idx as usize >= n_consts {
                    return Err(format!("constant #{idx} of {n_consts} does not exist"));
                }
                used[idx as usize] = true;
                st.push(Tree::Const(idx as usize));
            }
            PNode::Op { arity, op } => {
                let id = OpId { arity, id: op };
                if arity as usize > D || arity == 0 || !<T::B as OperatorSet>::ops_with_arity(arity).contains(&op) {
                    return Err(format!("operator {arity}/{op} does not exist"));
                }
                if st.len() < arity as usize {
                    return Err("operator without its arguments".into());
                }
                let args = st.split_off(st.len() - arity as usize);
                st.push(Tree::Op(id, args));
            }
        }
    }
    if st.len() != 1 {
        return Err(format!("{} values left on the stack", st.len()));
    }
    Ok(st.pop().unwrap())
}

pub fn ref_op<T: Flt>(name: &str, a: &[T]) -> Option<T> {
    let x = a[0];
    let one = T::one();
    Some(match name {
        "cos" => x.cos(),
        "sin" => x.sin(),
        "tan" => x.tan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "tanh" => x.tanh(),
        "asinh" => x.asinh(),
        "acosh" => x.acosh(),
        "atanh" => x.atanh(),
        "sec" => one / x.cos(),
        "csc" => one / x.sin(),
        "cot" => one / x.tan(),
        "exp" => x.exp(),
        "log" => x.ln(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "log1p" => x.ln_1p(),
        "exp2" => x.exp2(),
        "expm1" => x.exp_m1(),
        "sqrt" => x.sqrt(),
        "cbrt" => x.cbrt(),
        "abs" => x.abs(),
        "abs2" => x * x,
        "inv" => one / x,
        "sign" => x.signum(),
        "identity" => x,
        "neg" => -x,
        "add" => x + a[1],
        "sub" => x - a[1],
        "mul" => x * a[1],
        "div" => x / a[1],
        "pow" => x.powf(a[1]),
        "atan2" => x.atan2(a[1]),
        "min" => x.min(a[1]),
        "max" => x.max(a[1]),
        "fma" => x.mul_add(a[1], a[2]),
        "clamp" => {
            let (lo, hi) = (a[1], a[2]);
            if x < lo {
                lo
            } else if x > hi {
                hi
            } else {
                x
            }
        }
        _ => return None,
    })
}

pub struct Eval<T> {
    pub y: Vec<T>,
    /// min/max of zeros of different sign: the result's sign is not defined, so values are not compared
    pub vague: bool,
    /// some operator result (or the root) was not finite in some row
    pub broken: bool,
    pub out_broken: bool,
}

fn eval_row<T: Flt>(t: &Tree, row: &dyn Fn(usize) -> T, consts: &[T], broken: &mut bool, vague: &mut bool, wobble: &mut Option<crate::rng::R>) -> T {
    match t {
        Tree::Var(f) => row(*f),
        Tree::Const(c) => consts[*c],
        Tree::Op(op, args) => {
            let mut v = Vec::with_capacity(args.len());
            for a in args {
                v.push(eval_row(a, row, consts, broken, vague, wobble));
            }
            let name = <T::B as OperatorSet>::meta(*op).map(|m| m.name).unwrap_or("?");
            let r = match ref_op(name, &v) {
                Some(r) => r,
                None => crate::report::harness_error(&format!("no reference for operator {name}")),
            };
            if (name == "min" || name == "max") && v[0] == v[1] && v[0].bits() != v[1].bits() {
                *vague = true;
            }
            let r = hole(*op, r).unwrap_or(r);
            if !r.is_finite() {
                *broken = true;
            }
            match wobble {
                Some(w) => T::from64(r.to64() * (1.0 + eps_of::<T>() * (w.below(9) as f64 - 4.0))),
                None => r,
            }
        }
    }
}
pub fn eval<T: Flt>(t: &Tree, data: &Dataset<T>, consts: &[T]) -> Eval<T> {
    let mut broken = false;
    let mut vague = false;
    let mut out_broken = false;
    let mut y = Vec::with_capacity(data.n_rows);
    for r in 0..data.n_rows {
        let v = eval_row(t, &|f| data.x[(f, r)], consts, &mut broken, &mut vague, &mut None);
        if !v.is_finite() {
            out_broken = true;
        }
        y.push(v);
    }
    Eval { y, vague, broken: broken || out_broken, out_broken }
}

/// Loss in double precision from the predictions; (value, scale of the summands).
pub fn loss<T: Flt>(kind: LossKind, yhat: &[T], y: &[T], w: Option<&[T]>) -> (f64, f64) {
    let n = y.len();
    let mut sum = 0.0f64;
    let mut big = 0.0f64;
    let mut sw = 0.0f64;
    for i in 0..n {
        let (a, b) = (yhat[i], y[i]);
        let r = (a - b).to64();
        let p = match kind {
            LossKind::Mse | LossKind::Rmse => r * r,
            LossKind::Mae => r.abs(),
            LossKind::Huber { delta } => {
                let d = T::from64(delta).to64();
                if r.abs() <= d {
                    0.5 * r * r
                } else {
                    d * (r.abs() - 0.5 * d)
                }
            }
            LossKind::LogCosh => {
                let a = r.abs();
                a + (-2.0 * a).exp().ln_1p() - std::f64::consts::LN_2
            }
            LossKind::Lp { p } => r.abs().powf(T::from64(p).to64()),
            LossKind::Quantile { tau } => {
                let u = -r;
                let tau = T::from64(tau).to64();
                if u >= 0.0 {
                    tau * u
                } else {
                    (tau - 1.0) * u
                }
            }
            LossKind::EpsilonInsensitive { eps } => (r.abs() - T::from64(eps).to64()).max(0.0),
        };
        let wi = w.map(|w| w[i].to64()).unwrap_or(1.0);
        sum += wi * p;
        sw += wi;
        let mut scale = p.abs();
        if matches!(kind, LossKind::LogCosh) {
            scale += 1.0;
        }
        if matches!(kind, LossKind::EpsilonInsensitive { .. }) {
            scale += r.abs();
        }
        if matches!(kind, LossKind::Huber { .. }) {
            scale += r.abs();
        }
        big += wi * scale;
    }
    if w.is_some() && sw == 0.0 {
        return (0.0, 0.0);
    }
    let m = if n == 0 { 0.0 } else { sum / sw };
    let b = if n == 0 { 0.0 } else { big / sw };
    if matches!(kind, LossKind::Rmse) {
        return (m.sqrt(), b.sqrt());
    }
    (m, b)
}

pub struct Spec<'a, T: Flt, const D: usize> {
    pub data: &'a Dataset<T>,
    pub opt: &'a Options<T, D>,
    pub kind: LossKind,
}

pub fn eps_of<T: Flt>() -> f64 {
    if T::F32 {
        f32::EPSILON as f64
    } else {
        f64::EPSILON
    }
}
/// A loss below this may have vanished on the way (squares of residuals underflow).
fn tiny_of<T: Flt>(kind: LossKind) -> f64 {
    let t = if T::F32 { 1e-37 } else { 1e-300 };
    if matches!(kind, LossKind::Rmse) {
        f64::sqrt(t)
    } else {
        t
    }
}
pub fn huge_of<T: Flt>() -> f64 {
    // beyond this an intermediate overflow in T is plausible
    if T::F32 {
        1e17
    } else {
        1e150
    }
}

impl<'a, T: Flt, const D: usize> Spec<'a, T, D> {
    pub fn complexity(&self, t: &Tree) -> usize {
        let o = self.opt;
        match t {
            Tree::Var(f) => {
                let v = o.variable_complexities.as_ref().and_then(|v| v.get(*f).copied()).unwrap_or(o.complexity_of_variables);
                v as usize
            }
            Tree::Const(_) => o.complexity_of_constants as usize,
            Tree::Op(op, a) => {
                let base = o.operator_complexity_overrides.get(op).copied().unwrap_or(1) as usize;
                base + a.iter().map(|t| self.complexity(t)).sum::<usize>()
            }
        }
    }
    fn depth(t: &Tree) -> usize {
        match t {
            Tree::Op(_, a) => 1 + a.iter().map(Self::depth).max().unwrap_or(0),
            _ => 1,
        }
    }
    /// most occurrences of `op` on any path from t downwards, t included
    fn nested(t: &Tree, op: OpId) -> usize {
        match t {
            Tree::Op(o, a) => (*o == op) as usize + a.iter().map(|t| Self::nested(t, op)).max().unwrap_or(0),
            _ => 0,
        }
    }
    fn arg_limits(&self, t: &Tree) -> Result<(), String> {
        if let Tree::Op(op, a) = t {
            if let Some(l) = self.opt.op_constraints.limits.get(op) {
                for (j, s) in a.iter().enumerate() {
                    if let Some(m) = l[j] {
                        let c = self.complexity(s);
                        if c > m as usize {
                            return Err(format!("argument {j} of operator {}/{} has complexity {c}, limit {m}", op.arity, op.id));
                        }
                    }
                }
            }
            if let Some(rules) = self.opt.nested_constraints.limits.get(op) {
                for (n, max) in rules {
                    let d = a.iter().map(|t| Self::nested(t, *n)).max().unwrap_or(0);
                    if d > *max as usize {
                        return Err(format!("operator {}/{} holds {d} nested {}/{}, limit {max}", op.arity, op.id, n.arity, n.id));
                    }
                }
            }
            for s in a {
                self.arg_limits(s)?;
            }
        }
        Ok(())
    }
    fn enabled(&self, t: &Tree) -> Result<(), String> {
        if let Tree::Op(op, a) = t {
            if !self.opt.operators.ops_by_arity[op.arity as usize - 1].contains(op) {
                return Err(format!("operator {}/{} is not enabled", op.arity, op.id));
            }
            for s in a {
                self.enabled(s)?;
            }
        }
        Ok(())
    }
    /// The constraints of the options, read off the tree.
    pub fn constraints(&self, t: &Tree, maxsize: usize) -> Result<(), String> {
        let c = self.complexity(t);
        if c > maxsize {
            return Err(format!("complexity {c} exceeds {maxsize}"));
        }
        let d = Self::depth(t);
        if d > self.opt.maxdepth {
            return Err(format!("depth {d} exceeds {}", self.opt.maxdepth));
        }
        self.arg_limits(t)
    }
    pub fn full_constraints(&self, t: &Tree, maxsize: usize) -> Result<(), String> {
        self.constraints(t, maxsize)?;
        self.enabled(t)
    }
    pub fn tree(&self, m: &Member<T, D>) -> Result<Tree, String> {
        parse::<T, D>(&m.expr.nodes, m.expr.consts.len(), self.data.n_features)
    }
    pub fn baseline(&self) -> Option<f64> {
        if !self.opt.use_baseline {
            return None;
        }
        let z = vec![T::zero(); self.data.n_rows];
        let (b, _) = loss(self.kind, &z, self.data.y_slice(), self.data.weights_slice());
        b.is_finite().then_some(b)
    }
    pub fn denom(&self) -> f64 {
        match self.baseline() {
            Some(b) if b >= 0.01 => b,
            _ => 0.01,
        }
    }
    pub fn cost(&self, l: f64, complexity: usize) -> f64 {
        l / self.denom() + self.opt.parsimony * complexity as f64
    }
    /// How far the loss moves when every operator of the equation rounds differently: a simplification reorders and folds
    /// operations, which a periodic function of a large argument, say, does not forgive.
    fn spread(&self, t: &Tree, consts: &[T], l: f64) -> f64 {
        let mut worst = 0.0f64;
        for k in 1..=6u64 {
            let mut wobble = Some(crate::rng::R::new(k, "wobble"));
            let mut y = Vec::with_capacity(self.data.n_rows);
            for r in 0..self.data.n_rows {
                let v = eval_row(t, &|f| self.data.x[(f, r)], consts, &mut false, &mut false, &mut wobble);
                if !v.is_finite() {
                    return f64::INFINITY;
                }
                y.push(v);
            }
            let (p, _) = loss(self.kind, &y, self.data.y_slice(), self.data.weights_slice());
            worst = worst.max((p - l).abs());
        }
        16.0 * worst
    }
    /// Full numeric check of one member against `data`. `approx`: the loss may be inherited through a simplification.
    pub fn numbers(&self, m: &Member<T, D>, approx: bool) -> Result<(), (&'static str, String)> {
        let t = self.tree(m).map_err(|e| ("malformed", e))?;
        let c = self.complexity(&t);
        if c != m.complexity {
            return Err(("complexity", format!("reports complexity {} but has {}", m.complexity, c)));
        }
        if m.loss.is_nan() || m.cost.is_nan() {
            return Err(("nan", format!("loss {:?} cost {:?}", m.loss, m.cost)));
        }
        let e = eval(&t, self.data, &m.expr.consts);
        let rep = m.loss.to64();
        if e.vague {
        } else if e.broken {
            if rep.is_finite() && !approx {
                return Err(("nonfinite", format!("reports loss {rep:e} although its evaluation on the data is not finite")));
            }
            if rep.is_finite() && approx && e.out_broken && crate::ops::opf().hole_pm == 0 {
                return Err(("nonfinite", format!("reports loss {rep:e} although its output on the data is not finite")));
            }
        } else {
            let (l, scale) = loss(self.kind, &e.y, self.data.y_slice(), self.data.weights_slice());
            let tol = 64.0 * eps_of::<T>() * (1.0 + self.data.n_rows as f64) * (l.abs() + scale);
            let ymax = self.data.y_slice().iter().chain(e.y.iter()).fold(0.0f64, |a, v| a.max(v.to64().abs()));
            let rel = if approx { 1e-3 * (l.abs() + scale) + 1e3 * eps_of::<T>() * (1.0 + ymax) + self.spread(&t, &m.expr.consts, l) } else { 0.0 };
            if !rep.is_finite() {
                // a residual so large that it overflows does so even at weight zero
                let top = loss(self.kind, &e.y, self.data.y_slice(), None).1 * self.data.n_rows as f64;
                let top = if matches!(self.kind, LossKind::Rmse) { top * top } else { top };
                if l < huge_of::<T>() && scale < huge_of::<T>() && top < huge_of::<T>() && !approx {
                    return Err(("loss", format!("reports loss {rep} but evaluates to {l:e}")));
                }
            } else if (rep - l).abs() > tol + rel + tiny_of::<T>(self.kind) && l < huge_of::<T>() {
                return Err(("loss", format!("reports loss {rep:e} but evaluates to {l:e}")));
            }
        }
        let rc = m.cost.to64();
        if rep.is_finite() {
            let want = self.cost(rep, c);
            let tol = 256.0 * eps_of::<T>() * (1.0 + self.data.n_rows as f64) * (want.abs() + rep.abs() + 1e-30) + tiny_of::<T>(LossKind::Mse);
            if rc.is_finite() {
                if (rc - want).abs() > tol {
                    return Err(("cost", format!("reports cost {rc:e} for loss {rep:e} complexity {c}, expected {want:e}")));
                }
            } else if want < huge_of::<T>() {
                return Err(("cost", format!("reports cost {rc} for loss {rep:e}")));
            }
        } else if rc.is_finite() {
            return Err(("cost", format!("infinite loss but cost {rc:e}")));
        }
        Ok(())
    }
}
#[derive(Clone, Copy)]
pub struct Want {
    pub numbers: bool,
    pub approx: bool,
    pub constraints: bool,
    pub front: bool,
    pub finite: bool,
}

/// Everything that must hold of a hall of fame and best equation that can be read right now.
pub fn check<T: Flt, const D: usize>(
    s: &Spec<'_, T, D>,
    hall: &Hall<T, D>,
    best: &Member<T, D>,
    w: Want,
) -> Result<(), (&'static str, String)> {
    let show = |m: &Member<T, D>| format!("#{} [{}]", m.id.0, show_expr(m));
    let slots = &hall.best_by_complexity;
    let any = slots.iter().any(|m| m.is_some());
    // a rewritten expression rounds differently and may fall into an injected hole its loss does not know of
    let moved = w.approx && crate::ops::opf().hole_pm > 0;
    for (i, m) in slots.iter().enumerate() {
        let Some(m) = m else { continue };
        if w.numbers {
            s.numbers(m, w.approx).map_err(|(k, e)| (k, format!("hall[{i}] {}: {e}", show(m))))?;
        }
        if w.constraints {
            let t = s.tree(m).map_err(|e| ("malformed", format!("hall[{i}]: {e}")))?;
            s.full_constraints(&t, s.opt.maxsize).map_err(|e| ("constraint", format!("hall[{i}] {}: {e}", show(m))))?;
        }
        if w.front && m.complexity != i {
            return Err(("slot", format!("entry with complexity {} filed under {i}", m.complexity)));
        }
        if w.finite {
            finite(s, m, moved, w.approx).map_err(|e| ("nonfinite", format!("hall[{i}] {}: {e}", show(m))))?;
        }
    }
    if w.numbers {
        s.numbers(best, w.approx).map_err(|(k, e)| (k, format!("best {}: {e}", show(best))))?;
    }
    if w.constraints && any {
        let t = s.tree(best).map_err(|e| ("malformed", format!("best: {e}")))?;
        s.full_constraints(&t, s.opt.maxsize).map_err(|e| ("constraint", format!("best {}: {e}", show(best))))?;
    }
    if w.finite {
        finite(s, best, moved, w.approx).map_err(|e| ("nonfinite", format!("best {}: {e}", show(best))))?;
        if let Some(m) = slots.iter().flatten().find(|m| m.loss.is_finite() && !best.loss.is_finite()) {
            return Err(("finite", format!("{} has loss {:?} but the best equation has {:?}", show(m), m.loss, best.loss)));
        }
    }
    if w.front {
        let front = hall.pareto_front();
        let mut want: Vec<(usize, f64)> = Vec::new();
        let mut low = f64::INFINITY;
        for m in slots.iter().flatten() {
            let l = m.loss.to64();
            if l < low {
                low = l;
                want.push((m.complexity, l));
            }
        }
        let got: Vec<(usize, f64)> = front.iter().map(|m| (m.complexity, m.loss.to64())).collect();
        if got != want {
            return Err(("front", format!("front {got:?}, expected {want:?}")));
        }
        for f in &front {
            let ok = slots.iter().flatten().any(|m| m.id == f.id && same_expr(m, f));
            if !ok {
                return Err(("front", format!("front entry {} is not in the hall of fame", show(f))));
            }
        }
        if low < best.loss.to64() {
            return Err(("best", format!("best loss {:e} but the hall of fame has {low:e}", best.loss.to64())));
        }
    }
    Ok(())
}
fn finite<T: Flt, const D: usize>(s: &Spec<'_, T, D>, m: &Member<T, D>, moved: bool, s_approx: bool) -> Result<(), String> {
    if m.loss.is_nan() || m.cost.is_nan() {
        return Err(format!("loss {:?}, cost {:?}", m.loss, m.cost));
    }
    if m.loss.is_finite() && !moved {
        let t = s.tree(m)?;
        let e = eval(&t, s.data, &m.expr.consts);
        if e.out_broken {
            return Err(format!("finite loss {:?} although its output is not finite", m.loss));
        }
        if e.broken && !e.vague && !s_approx {
            return Err(format!("finite loss {:?} although its evaluation is not finite in some row", m.loss));
        }
    }
    Ok(())
}
pub fn same_expr<T: Flt, const D: usize>(a: &Member<T, D>, b: &Member<T, D>) -> bool {
    a.expr.nodes == b.expr.nodes
        && a.expr.consts.len() == b.expr.consts.len()
        && a.expr.consts.iter().zip(&b.expr.consts).all(|(x, y)| x.bits() == y.bits())
}
/// Digest of everything reported about a member.
pub fn digest_member<T: Flt, const D: usize>(h: &mut crate::rng::Fnv, m: &Member<T, D>) {
    h.u(m.id.0);
    h.u(m.parent.map(|p| p.0 + 1).unwrap_or(0));
    h.u(m.birth);
    digest_expr(h, m);
    h.u(m.complexity as u64);
    h.u(m.loss.bits());
    h.u(m.cost.bits());
}
pub fn digest_expr<T: Flt, const D: usize>(h: &mut crate::rng::Fnv, m: &Member<T, D>) {
    for n in &m.expr.nodes {
        match *n {
            PNode::Var { feature } => h.u(1 + ((feature as u64) << 8)),
            PNode::Const { idx } => h.u(2 + ((idx as u64) << 8)),
            PNode::Op { arity, op } => h.u(3 + ((arity as u64) << 8) + ((op as u64) << 16)),
        }
    }
    h.u(0xabc);
    for c in &m.expr.consts {
        h.u(c.bits());
    }
}
pub fn digest<T: Flt, const D: usize>(hall: &Hall<T, D>, best: &Member<T, D>) -> u64 {
    let mut h = crate::rng::Fnv::default();
    for m in &hall.best_by_complexity {
        match m {
            None => h.u(0),
            Some(m) => digest_member(&mut h, m),
        }
    }
    digest_member(&mut h, best);
    h.0
}
pub fn show_expr<T: Flt, const D: usize>(m: &Member<T, D>) -> String {
    let mut s = String::new();
    for n in &m.expr.nodes {
        if !s.is_empty() {
            s.push(' ');
        }
        match *n {
            PNode::Var { feature } => s.push_str(&format!("x{feature}")),
            PNode::Const { idx } => match m.expr.consts.get(idx as usize) {
                Some(c) => s.push_str(&format!("{:e}", c.to64())),
                None => s.push_str("c?"),
            },
            PNode::Op { arity, op } => {
                s.push_str(<T::B as OperatorSet>::meta(OpId { arity, id: op }).map(|m| m.name).unwrap_or("op?"))
            }
        }
    }
    s
}
