//! The ideal STARK: columns travel in the clear, commitments are hashes of them, and verification
//! evaluates the constraints on every row.
use crate::ext::QM31;
use crate::field::M31;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use std::ops::{Deref, Index, IndexMut};

#[derive(Copy, Clone, Debug, Default, Serialize, Deserialize)]
pub struct SimdBackend;
pub trait Backend: Copy + Clone + 'static {}
impl Backend for SimdBackend {}
pub trait BackendForChannel<MC: MerkleChannel> {}
impl<MC: MerkleChannel> BackendForChannel<MC> for SimdBackend {}
pub trait Column<T> {
    fn to_cpu(&self) -> Vec<T>;
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct BaseColumn(pub Vec<M31>);
impl FromIterator<M31> for BaseColumn {
    fn from_iter<I: IntoIterator<Item = M31>>(i: I) -> Self {
        BaseColumn(i.into_iter().collect())
    }
}
impl Column<M31> for BaseColumn {
    fn to_cpu(&self) -> Vec<M31> {
        self.0.clone()
    }
}

#[derive(Copy, Clone, Debug, Default)]
pub struct BitReversedOrder;
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
pub struct CircleDomain {
    pub log_size: u32,
    pub half_coset: u32,
}
#[derive(Copy, Clone, Debug, Default)]
pub struct CanonicCoset {
    log_size: u32,
}
impl CanonicCoset {
    pub fn new(log_size: u32) -> Self {
        assert!(log_size > 0);
        Self { log_size }
    }
    pub fn circle_domain(&self) -> CircleDomain {
        CircleDomain { log_size: self.log_size, half_coset: self.log_size }
    }
}
pub trait PolyOps {
    fn precompute_twiddles(_half_coset: u32) {}
}
impl PolyOps for SimdBackend {}

#[derive(Clone, Debug)]
pub struct CircleEvaluation<B, F, O> {
    pub domain: CircleDomain,
    pub values: BaseColumn,
    _p: PhantomData<(B, F, O)>,
}
impl<B, O> CircleEvaluation<B, M31, O> {
    pub fn new(domain: CircleDomain, values: BaseColumn) -> Self {
        assert_eq!(1usize << domain.log_size, values.0.len(), "evaluation domain and column length");
        Self { domain, values, _p: PhantomData }
    }
}

/// A sponge of 64-bit words: every word absorbed changes every later draw.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct IdealChannel {
    pub state: u64,
    pub count: u64,
}
pub fn mix64(s: u64, w: u64) -> u64 {
    let mut z = s.rotate_left(23) ^ w.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub trait Channel: Default + Clone {
    fn mix_u64(&mut self, v: u64);
    fn mix_u32s(&mut self, v: &[u32]);
    fn mix_felts(&mut self, v: &[QM31]);
    fn draw_felt(&mut self) -> QM31;
    fn trailing_zeros(&self) -> u32;
}
impl Channel for IdealChannel {
    fn mix_u64(&mut self, v: u64) {
        self.state = mix64(self.state ^ 1, v);
        self.count = 0;
    }
    fn mix_u32s(&mut self, v: &[u32]) {
        self.state = mix64(self.state ^ 2, v.len() as u64);
        for x in v {
            self.state = mix64(self.state, *x as u64);
        }
        self.count = 0;
    }
    fn mix_felts(&mut self, v: &[QM31]) {
        self.state = mix64(self.state ^ 3, v.len() as u64);
        for x in v.iter().flat_map(|q| q.to_m31_array()) {
            self.state = mix64(self.state, x.0 as u64);
        }
        self.count = 0;
    }
    fn draw_felt(&mut self) -> QM31 {
        let mut next = || {
            self.count += 1;
            M31::reduce(mix64(self.state ^ 0xd4a3, self.count))
        };
        QM31::from_m31_array([next(), next(), next(), next()])
    }
    fn trailing_zeros(&self) -> u32 {
        self.state.trailing_zeros()
    }
}
pub trait MerkleHasher: Clone + Default {
    type Hash: Copy + Clone + PartialEq + Eq + std::fmt::Debug + Default + Serialize + for<'a> Deserialize<'a>;
    fn to_u64(h: Self::Hash) -> u64;
    fn from_u64(v: u64) -> Self::Hash;
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Blake2sMerkleHasher;
impl MerkleHasher for Blake2sMerkleHasher {
    type Hash = u64;
    fn to_u64(h: u64) -> u64 {
        h
    }
    fn from_u64(v: u64) -> u64 {
        v
    }
}
pub trait MerkleChannel: Default {
    type C: Channel;
    type H: MerkleHasher;
}
#[derive(Clone, Debug, Default)]
pub struct Blake2sMerkleChannel;
impl MerkleChannel for Blake2sMerkleChannel {
    type C = IdealChannel;
    type H = Blake2sMerkleHasher;
}
pub trait GrindOps<C> {
    fn grind(channel: &C, bits: u32) -> u64;
}
impl<C: Channel> GrindOps<C> for SimdBackend {
    fn grind(channel: &C, bits: u32) -> u64 {
        (0..)
            .find(|n| {
                let mut c = channel.clone();
                c.mix_u64(*n);
                c.trailing_zeros() >= bits
            })
            .unwrap()
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FriConfig {
    pub log_last_layer_degree_bound: u32,
    pub log_blowup_factor: u32,
    pub n_queries: usize,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct PcsConfig {
    pub pow_bits: u32,
    pub fri_config: FriConfig,
}
impl PcsConfig {
    pub fn mix_into(&self, channel: &mut impl Channel) {
        channel.mix_u64(self.pow_bits as u64);
        channel.mix_u64(self.fri_config.log_last_layer_degree_bound as u64);
        channel.mix_u64(self.fri_config.log_blowup_factor as u64);
        channel.mix_u64(self.fri_config.n_queries as u64);
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct TreeVec<T>(pub Vec<T>);
impl<T> TreeVec<T> {
    pub fn new(v: Vec<T>) -> Self {
        Self(v)
    }
    pub fn as_ref(&self) -> TreeVec<&T> {
        TreeVec(self.0.iter().collect())
    }
    pub fn map<U>(self, f: impl FnMut(T) -> U) -> TreeVec<U> {
        TreeVec(self.0.into_iter().map(f).collect())
    }
}
impl<T> TreeVec<Vec<T>> {
    pub fn concat_cols(trees: impl Iterator<Item = TreeVec<Vec<T>>>) -> Self {
        let mut out: Vec<Vec<T>> = Vec::new();
        for t in trees {
            for (i, cols) in t.0.into_iter().enumerate() {
                if out.len() <= i {
                    out.resize_with(i + 1, Vec::new);
                }
                out[i].extend(cols);
            }
        }
        TreeVec(out)
    }
}
impl<T> Index<usize> for TreeVec<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.0[i]
    }
}
impl<T> IndexMut<usize> for TreeVec<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.0[i]
    }
}
impl<T> Deref for TreeVec<T> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.0
    }
}

pub type Columns = Vec<Vec<M31>>;
pub fn commit_hash(cols: &Columns) -> u64 {
    use rayon::prelude::*;
    let hs: Vec<u64> = cols
        .par_iter()
        .map(|c| c.iter().fold(c.len() as u64, |s, x| mix64(s, x.0 as u64)))
        .collect();
    hs.into_iter().fold(cols.len() as u64 ^ 0x77, mix64)
}
pub struct CommitmentTree {
    pub evaluations: Columns,
    pub root: u64,
}
pub struct CommitmentSchemeProver<'a, B, MC> {
    pub trees: TreeVec<CommitmentTree>,
    pub config: PcsConfig,
    _p: PhantomData<(&'a (), B, MC)>,
}
impl<'a, B, MC: MerkleChannel> CommitmentSchemeProver<'a, B, MC> {
    pub fn new(config: PcsConfig, _twiddles: &'a ()) -> Self {
        Self { trees: TreeVec(vec![]), config, _p: PhantomData }
    }
    pub fn tree_builder(&mut self) -> TreeBuilder<'_, 'a, B, MC> {
        TreeBuilder { scheme: self, cols: vec![] }
    }
}
pub struct TreeBuilder<'b, 'a, B, MC> {
    scheme: &'b mut CommitmentSchemeProver<'a, B, MC>,
    cols: Columns,
}
impl<B, MC: MerkleChannel> TreeBuilder<'_, '_, B, MC> {
    pub fn extend_evals<O>(&mut self, evals: impl IntoIterator<Item = CircleEvaluation<B, M31, O>>) {
        self.cols.extend(evals.into_iter().map(|e| e.values.0));
    }
    pub fn commit(self, channel: &mut MC::C) {
        let root = commit_hash(&self.cols);
        channel.mix_u64(root);
        self.scheme.trees.0.push(CommitmentTree { evaluations: self.cols, root });
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StarkProof<H: MerkleHasher> {
    pub commitments: TreeVec<H::Hash>,
    pub columns: TreeVec<Columns>,
    pub config: PcsConfig,
}
#[derive(Clone, Debug, thiserror::Error)]
pub enum ProvingError {
    #[error("Constraints not satisfied.")]
    ConstraintsNotSatisfied,
}
#[derive(Clone, Debug, thiserror::Error)]
pub enum VerificationError {
    #[error("Proof has invalid structure: {0}.")]
    InvalidStructure(String),
    #[error("The composition polynomial OODS value does not match: {0}.")]
    OodsNotMatching(String),
    #[error("Proof of work verification failed.")]
    ProofOfWork,
}

/// One algebraic component, as the ideal verifier sees it.
pub trait Component: Sync {
    fn name(&self) -> String;
    fn log_size(&self) -> u32;
    fn claimed_sum(&self) -> QM31;
    /// Largest degree a constraint may have, and the largest it has.
    fn degree(&self) -> (u32, u32);
    /// First column and number of columns in the execution and interaction trees.
    fn spans(&self) -> [(usize, usize); 2];
    /// Evaluates one row: `row` holds the component's own execution columns.
    fn row(&self, row: &[M31], pre: &dyn Fn(usize) -> M31) -> RowOut;
    /// All constraints on all rows.
    fn check(&self, trees: &[Columns]) -> Result<(), String>;
}
pub trait ComponentProver<B>: Component {}

/// What one row of a component asserts.
#[derive(Clone, Debug, Default)]
pub struct RowOut {
    /// Values that must be zero.
    pub constraints: Vec<M31>,
    /// (relation, multiplicity, tuple).
    pub entries: Vec<(&'static str, QM31, Vec<M31>)>,
}

pub fn prove<B, MC: MerkleChannel>(
    components: &[&dyn ComponentProver<B>],
    _channel: &mut MC::C,
    scheme: CommitmentSchemeProver<'_, B, MC>,
) -> Result<StarkProof<MC::H>, ProvingError> {
    let _ = components;
    let config = scheme.config;
    let (roots, cols) =
        scheme.trees.0.into_iter().map(|t| (MC::H::from_u64(t.root), t.evaluations)).unzip();
    Ok(StarkProof { commitments: TreeVec(roots), columns: TreeVec(cols), config })
}

pub struct CommitmentSchemeVerifier<MC: MerkleChannel> {
    pub config: PcsConfig,
    pub commits: Vec<(u64, Vec<u32>)>,
    _p: PhantomData<MC>,
}
impl<MC: MerkleChannel> CommitmentSchemeVerifier<MC> {
    pub fn new(config: PcsConfig) -> Self {
        Self { config, commits: vec![], _p: PhantomData }
    }
    pub fn commit(&mut self, root: <MC::H as MerkleHasher>::Hash, log_sizes: &[u32], channel: &mut MC::C) {
        let r = MC::H::to_u64(root);
        channel.mix_u64(r);
        self.commits.push((r, log_sizes.to_vec()));
    }
}

pub fn verify<MC: MerkleChannel>(
    components: &[&dyn Component],
    _channel: &mut MC::C,
    scheme: &mut CommitmentSchemeVerifier<MC>,
    proof: StarkProof<MC::H>,
) -> Result<(), VerificationError> {
    let bad = |s: String| Err(VerificationError::InvalidStructure(s));
    if proof.config != scheme.config {
        return bad("another configuration".into());
    }
    if scheme.commits.len() != proof.columns.len() {
        return bad(format!("{} commitments, {} trees", scheme.commits.len(), proof.columns.len()));
    }
    for (i, ((root, sizes), cols)) in scheme.commits.iter().zip(&proof.columns.0).enumerate() {
        if sizes.len() != cols.len() {
            return bad(format!("tree {i}: {} columns declared, {} present", sizes.len(), cols.len()));
        }
        for (j, (s, c)) in sizes.iter().zip(cols).enumerate() {
            if c.len() != 1usize << s {
                return bad(format!("tree {i} column {j}: 2^{s} rows declared, {} present", c.len()));
            }
        }
        if *root != commit_hash(cols) {
            return bad(format!("tree {i} does not open its commitment"));
        }
    }
    let mut at = [0usize; 2];
    for c in components {
        let s = c.spans();
        for t in 0..2 {
            if s[t].0 != at[t] || at[t] + s[t].1 > proof.columns[t + 1].len() {
                return bad(format!("{}: columns {:?} of tree {}", c.name(), s[t], t + 1));
            }
            at[t] += s[t].1;
        }
    }
    for t in 0..2 {
        if at[t] != proof.columns[t + 1].len() {
            return bad(format!("tree {}: {} columns used of {}", t + 1, at[t], proof.columns[t + 1].len()));
        }
    }
    for c in components {
        c.check(&proof.columns.0).map_err(|e| VerificationError::OodsNotMatching(format!("{}: {e}", c.name())))?;
    }
    Ok(())
}
