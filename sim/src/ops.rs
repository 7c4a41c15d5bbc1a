//! Seams in the numerics: the operator set and the loss, both supplied by the user of the library.
use crate::{report, sched};
use dynamic_expressions::dispatch::{DiffKernelCtx, EvalKernelCtx, GradKernelCtx};
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{HasOp, OpId, OpMeta, OpTag, OperatorSet};
use num_traits::{Float, FromPrimitive, ToPrimitive};
use std::cell::UnsafeCell;
use std::fmt::{Debug, Display};
use std::marker::PhantomData;
use std::ops::AddAssign;
use std::sync::Arc;
use symbolic_regression::{LossFn, LossObject};

pub trait Flt:
    Float + FromPrimitive + ToPrimitive + Display + AddAssign + Send + Sync + Debug + Default + 'static
{
    type B: OperatorSet<T = Self> + Send + Sync + 'static;
    const F32: bool;
    fn bits(self) -> u64;
    fn from64(v: f64) -> Self;
    fn to64(self) -> f64;
}
impl Flt for f64 {
    type B = BuiltinOpsF64;
    const F32: bool = false;
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn from64(v: f64) -> Self {
        v
    }
    fn to64(self) -> f64 {
        self
    }
}
impl Flt for f32 {
    type B = BuiltinOpsF32;
    const F32: bool = true;
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from64(v: f64) -> Self {
        v as f32
    }
    fn to64(self) -> f64 {
        self as f64
    }
}

/// Injected operator behaviour, fixed before a run or changed by the scenario while it holds the token.
pub struct OpFaults {
    pub evals: u64,
    pub losses: u64,
    pub diffs: u64,
    pub grads: u64,
    /// panic inside the n-th kernel call from now (evaluations, derivatives, gradients together)
    pub panic_in: Option<u64>,
    /// after a panic, panic again after that many further calls
    pub again: Option<u64>,
    /// kernel calls that reported a non-finite result
    pub fails: u64,
    /// leave garbage in the output buffer before panicking
    pub garbage: bool,
    /// share (per mille) of result values replaced by a non-finite number, as a pure function of operator and value
    pub hole_pm: u64,
    pub hole_seed: u64,
    pub panics: u64,
    pub holes: u64,
    pub yields: bool,
}
static mut OPF: OpFaults = OpFaults {
    evals: 0,
    losses: 0,
    diffs: 0,
    grads: 0,
    panic_in: None,
    again: None,
    fails: 0,
    garbage: false,
    hole_pm: 0,
    hole_seed: 0,
    panics: 0,
    holes: 0,
    yields: true,
};
#[allow(static_mut_refs)]
pub fn opf() -> &'static mut OpFaults {
    unsafe { &mut OPF }
}
/// Payload of every injected panic.
#[derive(Clone, Debug, PartialEq)]
pub struct SimFault(pub u64);
pub const FAULT_OP: u64 = 4711;
pub const FAULT_LOSS: u64 = 1234;

fn due() -> bool {
    let f = opf();
    match &mut f.panic_in {
        Some(0) => {
            f.panic_in = f.again;
            f.panics += 1;
            true
        }
        Some(n) => {
            *n -= 1;
            false
        }
        None => false,
    }
}
pub fn hole<T: Flt>(op: OpId, v: T) -> Option<T> {
    let f = opf();
    if f.hole_pm == 0 || !v.is_finite() {
        return None;
    }
    let h = crate::rng::mix(v.bits() ^ f.hole_seed ^ ((op.arity as u64) << 40) ^ ((op.id as u64) << 48));
    if h % 1000 < f.hole_pm {
        return Some(match (h >> 32) % 3 {
            0 => T::nan(),
            1 => T::infinity(),
            _ => T::neg_infinity(),
        });
    }
    None
}

#[derive(Clone, Copy, Debug, Default)]
pub struct SimOps<B>(PhantomData<B>);
unsafe impl<B> Send for SimOps<B> {}
unsafe impl<B> Sync for SimOps<B> {}

fn punch<T: Flt>(op: OpId, out: &mut [T], ok: bool, check: bool) -> bool {
    if opf().hole_pm == 0 {
        return ok;
    }
    let mut good = ok;
    for o in out.iter_mut() {
        if let Some(v) = hole(op, *o) {
            *o = v;
            opf().holes += 1;
            if check {
                good = false;
            }
        }
    }
    good
}

impl<T: Flt, B: OperatorSet<T = T>> OperatorSet for SimOps<B> {
    type T = T;
    const MAX_ARITY: u8 = B::MAX_ARITY;
    fn ops_with_arity(arity: u8) -> &'static [u16] {
        B::ops_with_arity(arity)
    }
    fn meta(op: OpId) -> Option<&'static OpMeta> {
        B::meta(op)
    }
    fn eval(op: OpId, ctx: EvalKernelCtx<'_, '_, T>) -> bool {
        opf().evals += 1;
        if opf().yields {
            sched::preempt();
        }
        if due() {
            if opf().garbage {
                ctx.out.fill(T::from64(1e30));
            }
            std::panic::panic_any(SimFault(FAULT_OP));
        }
        let EvalKernelCtx { out, args, opts } = ctx;
        let ok = B::eval(op, EvalKernelCtx { out, args, opts });
        let ok = punch(op, out, ok, opts.check_finite);
        opf().fails += !ok as u64;
        ok
    }
    fn diff(op: OpId, ctx: DiffKernelCtx<'_, '_, T>) -> bool {
        opf().diffs += 1;
        if opf().yields {
            sched::preempt();
        }
        if due() {
            if opf().garbage {
                ctx.out_val.fill(T::from64(1e30));
                ctx.out_der.fill(T::from64(-3e30));
            }
            std::panic::panic_any(SimFault(FAULT_OP));
        }
        let DiffKernelCtx { out_val, out_der, args, dargs, opts } = ctx;
        let ok = B::diff(op, DiffKernelCtx { out_val, out_der, args, dargs, opts });
        punch(op, out_val, ok, opts.check_finite)
    }
    fn grad(op: OpId, ctx: GradKernelCtx<'_, '_, T>) -> bool {
        opf().grads += 1;
        if opf().yields {
            sched::preempt();
        }
        if due() {
            if opf().garbage {
                ctx.out_val.fill(T::from64(1e30));
                ctx.out_grad.fill(T::from64(-3e30));
            }
            std::panic::panic_any(SimFault(FAULT_OP));
        }
        let GradKernelCtx { out_val, out_grad, args, arg_grads, n_dir, n_rows, opts } = ctx;
        let ok = B::grad(op, GradKernelCtx { out_val, out_grad, args, arg_grads, n_dir, n_rows, opts });
        punch(op, out_val, ok, opts.check_finite)
    }
}
impl<Tag: OpTag, B: HasOp<Tag>> HasOp<Tag> for SimOps<B> {
    const ID: u16 = B::ID;
}

/// What the wrapped loss saw: the history the loss-based properties are judged on.
#[derive(Default, Clone)]
pub struct LossLog {
    pub calls: u64,
    pub grads: u64,
    pub full_calls: u64,
    pub nonfinite: u64,
    /// lowest finite value returned for a full-size evaluation
    pub min_full: Option<f64>,
    /// calls at the start that are no candidate evaluations (the baseline)
    pub skip: u64,
    pub min_any: Option<f64>,
    pub bad_rows: u64,
    pub odd_len: u64,
    /// how often each dataset row was seen in a batch
    pub row_seen: Vec<u64>,
    pub panic_in: Option<u64>,
    pub again: Option<u64>,
    pub panics: u64,
    /// share (per mille) of loss values replaced by NaN or infinity, as a pure function of the value
    pub nan_pm: u64,
    pub nan_seed: u64,
    pub nans: u64,
    pub record: bool,
    pub values: Vec<(usize, u64)>,
}
pub struct LossCell<T: Flt> {
    inner: LossObject<T>,
    pub y: Vec<T>,
    pub w: Option<Vec<T>>,
    /// row index by bits of y (datasets with unique targets only)
    by_y: std::collections::BTreeMap<u64, usize>,
    pub batch: usize,
    st: UnsafeCell<LossLog>,
}
unsafe impl<T: Flt> Send for LossCell<T> {}
unsafe impl<T: Flt> Sync for LossCell<T> {}
impl<T: Flt> LossCell<T> {
    pub fn new(inner: LossObject<T>, y: &[T], w: Option<&[T]>, batch: usize) -> Arc<LossCell<T>> {
        let mut by_y = std::collections::BTreeMap::new();
        for (i, v) in y.iter().enumerate() {
            by_y.insert(v.bits(), i);
        }
        if by_y.len() != y.len() {
            by_y.clear();
        }
        let st = LossLog { row_seen: vec![0; y.len()], ..Default::default() };
        Arc::new(LossCell { inner, y: y.to_vec(), w: w.map(|w| w.to_vec()), by_y, batch, st: UnsafeCell::new(st) })
    }
    #[allow(clippy::mut_from_ref)]
    pub fn log(&self) -> &mut LossLog {
        unsafe { &mut *self.st.get() }
    }
    fn rows(&self, y: &[T], w: Option<&[T]>) {
        let l = self.log();
        if y.len() == self.y.len() && y.iter().zip(&self.y).all(|(a, b)| a.bits() == b.bits()) {
            l.full_calls += 1;
            if !same_w(w, self.w.as_deref()) {
                l.bad_rows += 1;
            }
            return;
        }
        if y.len() != self.y.len() && y.len() != self.batch {
            l.odd_len += 1;
        }
        if self.by_y.is_empty() {
            return;
        }
        for (i, v) in y.iter().enumerate() {
            match self.by_y.get(&v.bits()) {
                None => l.bad_rows += 1,
                Some(&r) => {
                    l.row_seen[r] += 1;
                    let ok = match (w, self.w.as_deref()) {
                        (None, None) => true,
                        (Some(a), Some(b)) => a[i].bits() == b[r].bits(),
                        _ => false,
                    };
                    if !ok {
                        l.bad_rows += 1;
                    }
                }
            }
        }
    }
}
fn same_w<T: Flt>(a: Option<&[T]>, b: Option<&[T]>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits()),
        _ => false,
    }
}
pub struct SimLoss<T: Flt>(pub Arc<LossCell<T>>);
impl<T: Flt> LossFn<T> for SimLoss<T> {
    fn loss(&self, yhat: &[T], y: &[T], w: Option<&[T]>) -> T {
        sched::preempt();
        let l = self.0.log();
        l.calls += 1;
        opf().losses += 1;
        match &mut l.panic_in {
            Some(0) => {
                l.panic_in = l.again;
                l.panics += 1;
                std::panic::panic_any(SimFault(FAULT_LOSS));
            }
            Some(n) => *n -= 1,
            None => {}
        }
        if yhat.len() != y.len() {
            report::violation("loss-shape", &format!("loss called with {} predictions for {} targets", yhat.len(), y.len()));
        }
        sched::quiet(|| self.0.rows(y, w));
        let mut v = self.0.inner.loss(yhat, y, w);
        let l = self.0.log();
        if l.nan_pm > 0 && v.is_finite() {
            let h = crate::rng::mix(v.bits() ^ l.nan_seed);
            if h % 1000 < l.nan_pm {
                l.nans += 1;
                v = match (h >> 32) % 3 {
                    0 => T::nan(),
                    1 => T::infinity(),
                    _ => T::neg_infinity(),
                };
            }
        }
        let full = y.len() == self.0.y.len() && self.0.batch == 0 || same_w(Some(y), Some(&self.0.y));
        if v.is_finite() {
            let f = v.to64();
            if full && l.calls > l.skip && l.min_full.is_none_or(|m| f < m) {
                l.min_full = Some(f);
            }
            if l.min_any.is_none_or(|m| f < m) {
                l.min_any = Some(f);
            }
        } else {
            l.nonfinite += 1;
        }
        if l.record {
            sched::quiet(|| l.values.push((y.len(), v.bits())));
        }
        v
    }
    fn dloss_dyhat(&self, yhat: &[T], y: &[T], w: Option<&[T]>, out: &mut [T]) {
        sched::preempt();
        let l = self.0.log();
        l.grads += 1;
        self.0.inner.dloss_dyhat(yhat, y, w, out)
    }
}
