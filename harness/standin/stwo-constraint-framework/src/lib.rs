//! Stand-in for `stwo_constraint_framework`: the constraint-evaluation traits, evaluated either on
//! concrete rows or on degrees, and the LogUp trace generator.
use num_traits::{One, Zero};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::*;
use stwo_prover::core::backend::simd::m31::{LOG_N_LANES, N_LANES};
use stwo_prover::core::backend::simd::qm31::PackedQM31;
use stwo_prover::core::backend::simd::SimdBackend;
use stwo_prover::core::channel::Channel;
use stwo_prover::core::fields::m31::{BaseField, M31};
use stwo_prover::core::fields::qm31::SecureField;
use stwo_prover::core::fields::FieldExpOps;
use stwo_prover::ideal::{BitReversedOrder, CanonicCoset, CircleEvaluation, Columns, Component, ComponentProver, RowOut};

pub mod preprocessed_columns {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct PreProcessedColumnId {
        pub id: String,
    }
}
use preprocessed_columns::PreProcessedColumnId;

pub trait RelationEFTraitBound<F: Clone>:
    Clone + Zero + From<F> + From<SecureField> + Mul<SecureField, Output = Self> + Sub<SecureField, Output = Self> + AddAssign<Self>
{
}
impl<F: Clone, EF> RelationEFTraitBound<F> for EF where
    EF: Clone + Zero + From<F> + From<SecureField> + Mul<SecureField, Output = Self> + Sub<SecureField, Output = Self> + AddAssign<Self>
{
}
pub trait Relation<F: Clone, EF: RelationEFTraitBound<F>>: Sized {
    fn combine(&self, values: &[F]) -> EF;
    fn get_name(&self) -> &'static str;
    fn get_size(&self) -> usize;
}
#[derive(Clone, Debug, PartialEq)]
pub struct LookupElements<const N: usize> {
    pub z: SecureField,
    pub alpha_powers: [SecureField; N],
}
impl<const N: usize> LookupElements<N> {
    pub fn draw(channel: &mut impl Channel) -> Self {
        let z = channel.draw_felt();
        let alpha = channel.draw_felt();
        let mut p = SecureField::one();
        let alpha_powers = std::array::from_fn(|_| {
            let r = p;
            p *= alpha;
            r
        });
        Self { z, alpha_powers }
    }
    pub fn combine<F: Clone, EF: RelationEFTraitBound<F>>(&self, values: &[F]) -> EF {
        assert!(values.len() <= N, "{} values in a relation of size {N}", values.len());
        let mut acc = EF::zero();
        for (v, p) in values.iter().zip(&self.alpha_powers) {
            acc += EF::from(v.clone()) * *p;
        }
        acc - self.z
    }
}
#[macro_export]
macro_rules! relation {
    ($name:ident, $size:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name(pub $crate::LookupElements<$size>);
        #[allow(dead_code)]
        impl $name {
            pub fn draw(channel: &mut impl ::stwo_prover::core::channel::Channel) -> Self {
                Self($crate::LookupElements::draw(channel))
            }
        }
        impl<F: Clone, EF: $crate::RelationEFTraitBound<F>> $crate::Relation<F, EF> for $name {
            fn combine(&self, values: &[F]) -> EF {
                self.0.combine(values)
            }
            fn get_name(&self) -> &'static str {
                stringify!($name)
            }
            fn get_size(&self) -> usize {
                $size
            }
        }
    };
}
pub struct RelationEntry<'a, F: Clone, EF: RelationEFTraitBound<F>, R: Relation<F, EF>> {
    relation: &'a R,
    multiplicity: EF,
    values: &'a [F],
}
impl<'a, F: Clone, EF: RelationEFTraitBound<F>, R: Relation<F, EF>> RelationEntry<'a, F, EF, R> {
    pub fn new(relation: &'a R, multiplicity: EF, values: &'a [F]) -> Self {
        Self { relation, multiplicity, values }
    }
}

pub trait EvalAtRow: Sized {
    type F: FieldExpOps
        + Clone
        + Debug
        + Zero
        + One
        + From<BaseField>
        + Neg<Output = Self::F>
        + AddAssign<Self::F>
        + AddAssign<BaseField>
        + Add<Self::F, Output = Self::F>
        + Sub<Self::F, Output = Self::F>
        + Mul<BaseField, Output = Self::F>
        + Add<SecureField, Output = Self::EF>
        + Mul<SecureField, Output = Self::EF>;
    type EF: FieldExpOps
        + Clone
        + Debug
        + Zero
        + One
        + From<Self::F>
        + From<SecureField>
        + Neg<Output = Self::EF>
        + AddAssign<Self::EF>
        + Add<SecureField, Output = Self::EF>
        + Sub<SecureField, Output = Self::EF>
        + Mul<SecureField, Output = Self::EF>
        + Add<Self::F, Output = Self::EF>
        + Mul<Self::F, Output = Self::EF>
        + Sub<Self::EF, Output = Self::EF>;
    fn next_trace_mask(&mut self) -> Self::F;
    fn get_preprocessed_column(&mut self, id: PreProcessedColumnId) -> Self::F;
    fn add_constraint<G>(&mut self, constraint: G)
    where
        Self::EF: Mul<G, Output = Self::EF> + From<G>;
    fn add_intermediate(&mut self, v: Self::F) -> Self::F {
        v
    }
    fn add_to_relation<R: Relation<Self::F, Self::EF>>(&mut self, e: RelationEntry<'_, Self::F, Self::EF, R>);
    fn finalize_logup(&mut self);
    fn finalize_logup_in_pairs(&mut self);
}
pub trait FrameworkEval {
    fn log_size(&self) -> u32;
    fn max_constraint_log_degree_bound(&self) -> u32;
    fn evaluate<E: EvalAtRow>(&self, eval: E) -> E;
}

/// Evaluation on one concrete row.
pub struct RowEval<'a> {
    row: &'a [M31],
    at: usize,
    pre: &'a dyn Fn(&PreProcessedColumnId) -> M31,
    pub out: RowOut,
    keep: bool,
    pub fracs: Vec<(SecureField, SecureField)>,
    pub batches: Vec<(SecureField, SecureField)>,
    pub bad: Option<M31>,
}
impl<'a> RowEval<'a> {
    pub fn new(row: &'a [M31], pre: &'a dyn Fn(&PreProcessedColumnId) -> M31, keep: bool) -> Self {
        Self { row, at: 0, pre, out: RowOut::default(), keep, fracs: vec![], batches: vec![], bad: None }
    }
}
fn batch(f: &[(SecureField, SecureField)], n: usize) -> Vec<(SecureField, SecureField)> {
    f.chunks(n)
        .map(|c| c[1..].iter().fold(c[0], |a, b| (a.0 * b.1 + b.0 * a.1, a.1 * b.1)))
        .collect()
}
impl EvalAtRow for RowEval<'_> {
    type F = M31;
    type EF = SecureField;
    fn next_trace_mask(&mut self) -> M31 {
        self.at += 1;
        self.row[self.at - 1]
    }
    fn get_preprocessed_column(&mut self, id: PreProcessedColumnId) -> M31 {
        (self.pre)(&id)
    }
    fn add_constraint<G>(&mut self, constraint: G)
    where
        SecureField: Mul<G, Output = SecureField> + From<G>,
    {
        let v = SecureField::from(constraint).to_m31_array();
        let v = v.iter().copied().find(|x| !x.is_zero()).unwrap_or(M31(0));
        if self.keep {
            self.out.constraints.push(v);
        } else if !v.is_zero() && self.bad.is_none() {
            self.bad = Some(v);
        }
    }
    fn add_to_relation<R: Relation<M31, SecureField>>(&mut self, e: RelationEntry<'_, M31, SecureField, R>) {
        if self.keep {
            let mut t = e.values.to_vec();
            while t.last().is_some_and(|x| x.is_zero()) {
                t.pop();
            }
            self.out.entries.push((e.relation.get_name(), e.multiplicity, t));
        } else {
            self.fracs.push((e.multiplicity, e.relation.combine(e.values)));
        }
    }
    fn finalize_logup(&mut self) {
        self.batches = batch(&self.fracs, 1);
    }
    fn finalize_logup_in_pairs(&mut self) {
        self.batches = batch(&self.fracs, 2);
    }
}

/// A polynomial known only by an upper bound of its degree; `NEG` is the zero polynomial.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Deg(i32);
const NEG: Deg = Deg(-1);
impl Add for Deg {
    type Output = Deg;
    fn add(self, o: Deg) -> Deg {
        self.max(o)
    }
}
impl Sub for Deg {
    type Output = Deg;
    fn sub(self, o: Deg) -> Deg {
        self.max(o)
    }
}
impl Mul for Deg {
    type Output = Deg;
    fn mul(self, o: Deg) -> Deg {
        if self == NEG || o == NEG {
            NEG
        } else {
            Deg(self.0 + o.0)
        }
    }
}
impl Neg for Deg {
    type Output = Deg;
    fn neg(self) -> Deg {
        self
    }
}
impl Zero for Deg {
    fn zero() -> Deg {
        NEG
    }
    fn is_zero(&self) -> bool {
        *self == NEG
    }
}
impl One for Deg {
    fn one() -> Deg {
        Deg(0)
    }
}
impl AddAssign for Deg {
    fn add_assign(&mut self, o: Deg) {
        *self = *self + o;
    }
}
impl MulAssign for Deg {
    fn mul_assign(&mut self, o: Deg) {
        *self = *self * o;
    }
}
impl FieldExpOps for Deg {
    fn square(&self) -> Deg {
        *self * *self
    }
    fn pow(&self, e: u128) -> Deg {
        Deg(self.0 * e as i32)
    }
    fn inverse(&self) -> Deg {
        assert!(self.0 == 0, "inverse of a non-constant");
        *self
    }
}
macro_rules! deg_scalar {
    ($($t:ty),*) => { $(
        impl From<$t> for Deg { fn from(v: $t) -> Deg { if v.is_zero() { NEG } else { Deg(0) } } }
        impl Add<$t> for Deg { type Output = Deg; fn add(self, o: $t) -> Deg { self + Deg::from(o) } }
        impl Sub<$t> for Deg { type Output = Deg; fn sub(self, o: $t) -> Deg { self - Deg::from(o) } }
        impl Mul<$t> for Deg { type Output = Deg; fn mul(self, o: $t) -> Deg { self * Deg::from(o) } }
        impl AddAssign<$t> for Deg { fn add_assign(&mut self, o: $t) { *self = *self + Deg::from(o); } }
    )* };
}
deg_scalar!(M31, SecureField);
/// Evaluation on degrees: counts columns, batches and the degree of every constraint.
#[derive(Default)]
pub struct DegEval {
    pub columns: usize,
    pub preprocessed: Vec<PreProcessedColumnId>,
    pub degree: i32,
    fracs: Vec<(i32, i32)>,
    pub batches: usize,
    pub finalized: usize,
}
impl DegEval {
    fn fin(&mut self, n: usize) {
        self.finalized += 1;
        for c in self.fracs.chunks(n) {
            self.batches += 1;
            let den: i32 = c.iter().map(|x| x.1).sum();
            let num = c.iter().map(|x| x.0 + den - x.1).max().unwrap();
            self.degree = self.degree.max(num).max(den + 1);
        }
    }
}
impl EvalAtRow for DegEval {
    type F = Deg;
    type EF = Deg;
    fn next_trace_mask(&mut self) -> Deg {
        self.columns += 1;
        Deg(1)
    }
    fn get_preprocessed_column(&mut self, id: PreProcessedColumnId) -> Deg {
        self.preprocessed.push(id);
        Deg(1)
    }
    fn add_constraint<G>(&mut self, constraint: G)
    where
        Deg: Mul<G, Output = Deg> + From<G>,
    {
        self.degree = self.degree.max(Deg::from(constraint).0);
    }
    fn add_to_relation<R: Relation<Deg, Deg>>(&mut self, e: RelationEntry<'_, Deg, Deg, R>) {
        let d = e.values.iter().map(|x| x.0).max().unwrap_or(0).max(0);
        assert!(e.values.len() <= e.relation.get_size());
        self.fracs.push((e.multiplicity.0.max(0), d));
    }
    fn finalize_logup(&mut self) {
        self.fin(1);
    }
    fn finalize_logup_in_pairs(&mut self) {
        self.fin(2);
    }
}

#[derive(Default, Debug)]
pub struct TraceLocationAllocator {
    ids: Vec<PreProcessedColumnId>,
    at: [usize; 2],
}
impl TraceLocationAllocator {
    pub fn new_with_preproccessed_columns(ids: &[PreProcessedColumnId]) -> Self {
        Self { ids: ids.to_vec(), at: [0; 2] }
    }
}
pub struct FrameworkComponent<E> {
    eval: E,
    claimed_sum: SecureField,
    spans: [(usize, usize); 2],
    ids: Vec<PreProcessedColumnId>,
    degree: (u32, u32),
    batches: usize,
    problem: Option<String>,
}
impl<E> Deref for FrameworkComponent<E> {
    type Target = E;
    fn deref(&self) -> &E {
        &self.eval
    }
}
impl<E: FrameworkEval> FrameworkComponent<E> {
    pub fn new(a: &mut TraceLocationAllocator, eval: E, claimed_sum: SecureField) -> Self {
        let info = eval.evaluate(DegEval::default());
        let mut problem = None;
        if info.finalized != 1 {
            problem = Some(format!("LogUp finalized {} times", info.finalized));
        }
        if let Some(id) = info.preprocessed.iter().find(|id| !a.ids.contains(id)) {
            problem = Some(format!("no preprocessed column {}", id.id));
        }
        let spans = [(a.at[0], info.columns), (a.at[1], 4 * info.batches)];
        a.at[0] += info.columns;
        a.at[1] += 4 * info.batches;
        let bound = 1u32 << (eval.max_constraint_log_degree_bound().saturating_sub(eval.log_size()));
        let degree = (bound + 1, info.degree.max(0) as u32);
        Self { eval, claimed_sum, spans, ids: a.ids.clone(), degree, batches: info.batches, problem }
    }
}
impl<E: FrameworkEval + Sync> Component for FrameworkComponent<E> {
    fn name(&self) -> String {
        let n = std::any::type_name::<E>();
        let p: Vec<&str> = n.split("::").collect();
        p[p.len() - 2].to_string()
    }
    fn log_size(&self) -> u32 {
        self.eval.log_size()
    }
    fn claimed_sum(&self) -> SecureField {
        self.claimed_sum
    }
    fn degree(&self) -> (u32, u32) {
        self.degree
    }
    fn spans(&self) -> [(usize, usize); 2] {
        self.spans
    }
    fn row(&self, row: &[M31], pre: &dyn Fn(usize) -> M31) -> RowOut {
        let f = |id: &PreProcessedColumnId| pre(self.ids.iter().position(|x| x == id).unwrap());
        self.eval.evaluate(RowEval::new(row, &f, true)).out
    }
    fn check(&self, trees: &[Columns]) -> Result<(), String> {
        use rayon::prelude::*;
        if let Some(p) = &self.problem {
            return Err(p.clone());
        }
        let rows = 1usize << self.log_size();
        let main = &trees[1][self.spans[0].0..][..self.spans[0].1];
        let inter = &trees[2][self.spans[1].0..][..self.spans[1].1];
        if let Some(c) = main.iter().chain(inter).find(|c| c.len() != rows) {
            return Err(format!("a column of {} rows, component of {rows}", c.len()));
        }
        let cell = |b: usize, r: usize| SecureField::from_m31_array(std::array::from_fn(|k| inter[4 * b + k][r]));
        (0..rows).into_par_iter().try_for_each(|r| {
            let row: Vec<M31> = main.iter().map(|c| c[r]).collect();
            let pre = |id: &PreProcessedColumnId| {
                let i = self.ids.iter().position(|x| x == id).unwrap();
                let c = &trees[0][i];
                c.get(r).copied().unwrap_or(M31(0))
            };
            let ev = self.eval.evaluate(RowEval::new(&row, &pre, false));
            if let Some(v) = ev.bad {
                return Err(format!("row {r}: a constraint is {v}; row {row:?}"));
            }
            for (b, (num, den)) in ev.batches.iter().enumerate() {
                let prev = match (b, r) {
                    _ if b + 1 < self.batches => SecureField::zero(),
                    (_, 0) => SecureField::zero(),
                    _ => cell(b, r - 1),
                };
                if (cell(b, r) - prev) * *den != *num {
                    return Err(format!("row {r}: LogUp batch {b} differs from the interaction column; row {row:?}"));
                }
            }
            Ok(())
        })?;
        // non-last batches hold their own fraction; the last one accumulates over rows
        let mut total = SecureField::zero();
        if self.batches > 0 {
            total = cell(self.batches - 1, rows - 1);
            for b in 0..self.batches - 1 {
                total += (0..rows).map(|r| cell(b, r)).sum::<SecureField>();
            }
        }
        if total != self.claimed_sum {
            return Err("the claimed sum is not the sum of the interaction columns".into());
        }
        Ok(())
    }
}
impl<E: FrameworkEval + Sync> ComponentProver<SimdBackend> for FrameworkComponent<E> {}

pub mod logup {
    use super::*;
    pub struct LogupTraceGenerator {
        log_size: u32,
        cols: Vec<Vec<(PackedQM31, PackedQM31)>>,
    }
    impl LogupTraceGenerator {
        pub fn new(log_size: u32) -> Self {
            Self { log_size, cols: vec![] }
        }
        pub fn new_col(&mut self) -> LogupColGenerator<'_> {
            let n = 1usize << (self.log_size - LOG_N_LANES);
            LogupColGenerator { gen: self, fracs: vec![(PackedQM31::zero(), PackedQM31::zero()); n] }
        }
        pub fn finalize_last(self) -> (Vec<CircleEvaluation<SimdBackend, BaseField, BitReversedOrder>>, SecureField) {
            use rayon::prelude::*;
            let mut total = SecureField::zero();
            let mut out = vec![];
            let n = self.cols.len();
            for (k, col) in self.cols.into_iter().enumerate() {
                let mut vals: Vec<SecureField> = col
                    .par_iter()
                    .flat_map_iter(|(num, den)| {
                        let (num, den) = (num.to_array(), den.to_array());
                        (0..N_LANES).map(move |i| if num[i].is_zero() { num[i] } else { num[i] * den[i].inverse() })
                    })
                    .collect();
                total += vals.iter().sum::<SecureField>();
                if k + 1 == n {
                    let mut acc = SecureField::zero();
                    for v in &mut vals {
                        acc += *v;
                        *v = acc;
                    }
                }
                for c in 0..4 {
                    let column = vals.iter().map(|v| v.to_m31_array()[c]).collect();
                    out.push(CircleEvaluation::new(CanonicCoset::new(self.log_size).circle_domain(), column));
                }
            }
            (out, total)
        }
    }
    pub struct LogupColGenerator<'a> {
        gen: &'a mut LogupTraceGenerator,
        fracs: Vec<(PackedQM31, PackedQM31)>,
    }
    impl LogupColGenerator<'_> {
        pub fn par_iter_mut(&mut self) -> rayon::vec::IntoIter<FractionWriter<'_>> {
            use rayon::iter::IntoParallelIterator;
            self.fracs.iter_mut().map(FractionWriter).collect::<Vec<_>>().into_par_iter()
        }
        pub fn write_frac(&mut self, row: usize, num: PackedQM31, den: PackedQM31) {
            self.fracs[row] = (num, den);
        }
        pub fn finalize_col(self) {
            assert!(self.fracs.iter().all(|f| f.1.to_array().iter().all(|d| !d.is_zero())), "a zero denominator");
            self.gen.cols.push(self.fracs);
        }
    }
    pub struct FractionWriter<'a>(&'a mut (PackedQM31, PackedQM31));
    impl FractionWriter<'_> {
        pub fn write_frac(self, num: PackedQM31, den: PackedQM31) {
            *self.0 = (num, den);
        }
    }
}
#[allow(unused)]
type _P = PhantomData<()>;
