//! Runs of raw programs on the real virtual machine, and their proofs.
use crate::refvm::*;
use crate::util::guarded;
use cairo_m_common::execution::Segment;
use cairo_m_common::{Instruction as I, Program, ProgramData, PublicAddressRanges};
use cairo_m_prover::adapter::{import_from_runner_output, ProverInput};
use cairo_m_prover::prover::prove_cairo_m;
use cairo_m_prover::verifier::verify_cairo_m;
use cairo_m_prover::Proof;
use cairo_m_runner::vm::VM;
use cairo_m_runner::RunnerOptions;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::vcs::blake2_merkle::{Blake2sMerkleChannel, Blake2sMerkleHasher};

pub fn o(x: i64) -> M31 {
    M31(x.rem_euclid(P as i64) as u32)
}
pub struct Raw {
    pub code: Vec<I>,
    pub args: Vec<u32>,
    pub nret: u32,
    pub steps: usize,
}
pub struct Ran {
    pub segments: Vec<Segment>,
    pub ranges: PublicAddressRanges,
}
pub fn words_of(code: &[I]) -> Vec<W> {
    code.iter().flat_map(|i| i.to_qm31_vec().iter().map(word).collect::<Vec<_>>()).collect()
}
pub fn run(r: &Raw) -> Result<Ran, String> {
    guarded("run", || run_(r)).map_err(|p| format!("run: the machine panics: {p}"))?
}
fn run_(r: &Raw) -> Result<Ran, String> {
    let program = Program { data: r.code.iter().map(|i| ProgramData::Instruction(*i)).collect(), entrypoints: Default::default(), metadata: Default::default() };
    let len = words_of(&r.code).len() as u32;
    let nargs = r.args.len() as u32;
    let mut vm = VM::try_from(&program).map_err(|e| format!("not loaded: {e}"))?;
    let args: Vec<M31> = r.args.iter().map(|x| M31(*x)).collect();
    let fp = len + nargs + r.nret + 2;
    vm.run_from_entrypoint(0, fp - len, &args, r.nret as usize, &RunnerOptions { max_steps: r.steps }).map_err(|e| format!("run: {e}"))?;
    Ok(Ran { segments: vm.segments, ranges: PublicAddressRanges::new(len, r.args.len(), r.nret as usize) })
}
pub type TheProof = Proof<Blake2sMerkleHasher>;
pub fn import(s: Segment, ranges: &PublicAddressRanges) -> Result<ProverInput, String> {
    guarded("import", || import_from_runner_output(s, ranges.clone())).map_err(|p| format!("the adapter panics: {p}"))?.map_err(|e| format!("the adapter fails: {e}"))
}
pub fn prove(mut input: ProverInput) -> Result<TheProof, String> {
    guarded("prove", || prove_cairo_m::<Blake2sMerkleChannel>(&mut input, None)).map_err(|p| format!("the prover panics: {p}"))?.map_err(|e| format!("the prover fails: {e}"))
}
pub fn verify(p: TheProof) -> Result<(), String> {
    guarded("verify", || verify_cairo_m::<Blake2sMerkleChannel>(p, None)).map_err(|p| format!("the verifier panics: {p}"))?.map_err(|e| format!("the verifier refuses: {e}"))
}
