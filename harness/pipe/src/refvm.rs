//! Reference virtual machine, written from the comments of the instruction set (`instruction.rs`)
//! and docs/design.md; shares no code with the runner.
use cairo_m_common::Instruction as I;
use std::collections::BTreeMap;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;

pub const P: u64 = 2147483647;
pub const TOP: u32 = (1 << 28) - 1;
pub type W = [u32; 4];
pub type Acc = (u32, W);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Fail;
pub type R<T> = Result<T, Fail>;

pub trait Mem {
    /// Any cell; cells never written hold zero.
    fn load(&mut self, a: u32) -> W;
    fn store(&mut self, a: u32, w: W);
    fn log(&mut self, a: Acc);
}
pub fn add(a: u32, b: u32) -> u32 {
    ((a as u64 + b as u64) % P) as u32
}
pub fn sub(a: u32, b: u32) -> u32 {
    ((a as u64 + P - b as u64 % P) % P) as u32
}
pub fn mul(a: u32, b: u32) -> u32 {
    (a as u64 * b as u64 % P) as u32
}
pub fn inv(a: u32) -> Option<u32> {
    // extended Euclid
    let (mut r0, mut r1, mut s0, mut s1) = (P as i64, a as i64, 0i64, 1i64);
    if a == 0 {
        return None;
    }
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (s0, s1) = (s1, s0 - q * s1);
    }
    Some(s0.rem_euclid(P as i64) as u32)
}
fn get<M: Mem>(m: &mut M, a: u32, log: bool) -> R<u32> {
    if a > TOP {
        return Err(Fail);
    }
    let w = m.load(a);
    if w[1..] != [0, 0, 0] {
        return Err(Fail);
    }
    if log {
        m.log((a, w));
    }
    Ok(w[0])
}
fn put<M: Mem>(m: &mut M, a: u32, v: u32) -> R<()> {
    if a > TOP {
        return Err(Fail);
    }
    let w = [v, 0, 0, 0];
    m.store(a, w);
    m.log((a, w));
    Ok(())
}
fn get32<M: Mem>(m: &mut M, a: u32, log: bool) -> R<u32> {
    let lo = get(m, a, log)?;
    let hi = get(m, add(a, 1), log)?;
    if lo > 0xFFFF || hi > 0xFFFF {
        return Err(Fail);
    }
    Ok(hi << 16 | lo)
}
fn put32<M: Mem>(m: &mut M, a: u32, v: u32) -> R<()> {
    put(m, a, v & 0xFFFF)?;
    put(m, add(a, 1), v >> 16)
}
/// Words that an instruction occupies.
pub fn words(i: &I) -> u32 {
    match i {
        I::U32StoreDivRemFpFp { .. }
        | I::U32StoreDivRemFpImm { .. }
        | I::U32StoreAddFpImm { .. }
        | I::U32StoreMulFpImm { .. }
        | I::U32StoreEqFpImm { .. }
        | I::U32StoreLtFpImm { .. }
        | I::U32StoreAndFpImm { .. }
        | I::U32StoreOrFpImm { .. }
        | I::U32StoreXorFpImm { .. } => 2,
        _ => 1,
    }
}
fn imm32(lo: M31, hi: M31) -> R<u32> {
    if lo.0 > 0xFFFF || hi.0 > 0xFFFF {
        Err(Fail)
    } else {
        Ok(hi.0 << 16 | lo.0)
    }
}
/// Executes one instruction: the next (pc, fp). Fetching it is logged by the caller.
pub fn exec<M: Mem>(m: &mut M, (pc, fp): (u32, u32), i: &I) -> R<(u32, u32)> {
    let at = |o: M31| add(fp, o.0);
    let mut next = add(pc, words(i));
    let mut nfp = fp;
    macro_rules! felt {
        ($a:expr, $b:expr, $d:expr, $op:expr) => {{
            let (a, b) = (get(m, at(*$a), true)?, get(m, at(*$b), true)?);
            let v: u32 = $op(a, b);
            put(m, at(*$d), v)?
        }};
    }
    macro_rules! u {
        ($a:expr, $b:expr, $d:expr, $op:expr) => {{
            let a = get32(m, at(*$a), true)?;
            let b = get32(m, at(*$b), true)?;
            put32(m, at(*$d), $op(a as u64, b as u64) as u32)?
        }};
    }
    macro_rules! ui {
        ($a:expr, $lo:expr, $hi:expr, $d:expr, $op:expr) => {{
            let b = imm32(*$lo, *$hi)?;
            let a = get32(m, at(*$a), true)?;
            put32(m, at(*$d), $op(a as u64, b as u64) as u32)?
        }};
    }
    match i {
        I::StoreAddFpFp { src0_off, src1_off, dst_off } => felt!(src0_off, src1_off, dst_off, add),
        I::StoreSubFpFp { src0_off, src1_off, dst_off } => felt!(src0_off, src1_off, dst_off, sub),
        I::StoreMulFpFp { src0_off, src1_off, dst_off } => felt!(src0_off, src1_off, dst_off, mul),
        I::StoreDivFpFp { src0_off, src1_off, dst_off } => {
            let (a, b) = (get(m, at(*src0_off), true)?, get(m, at(*src1_off), true)?);
            let v = mul(a, inv(b).ok_or(Fail)?);
            put(m, at(*dst_off), v)?
        }
        I::StoreAddFpImm { src_off, imm, dst_off } => {
            let a = get(m, at(*src_off), true)?;
            put(m, at(*dst_off), add(a, imm.0))?
        }
        I::StoreMulFpImm { src_off, imm, dst_off } => {
            let a = get(m, at(*src_off), true)?;
            put(m, at(*dst_off), mul(a, imm.0))?
        }
        I::StoreLeFpImm { src_off, imm, dst_off } => {
            let a = get(m, at(*src_off), true)?;
            put(m, at(*dst_off), (a <= imm.0) as u32)?
        }
        I::AssertEqFpImm { src_off, imm } => {
            if get(m, at(*src_off), true)? != imm.0 {
                return Err(Fail);
            }
        }
        I::StoreDoubleDerefFp { base_off, imm, dst_off } => {
            let b = get(m, at(*base_off), true)?;
            let v = get(m, add(b, imm.0), true)?;
            put(m, at(*dst_off), v)?
        }
        I::StoreDoubleDerefFpFp { base_off, offset_off, dst_off } => {
            let b = get(m, at(*base_off), true)?;
            let o = get(m, at(*offset_off), true)?;
            let v = get(m, add(b, o), true)?;
            put(m, at(*dst_off), v)?
        }
        I::StoreToDoubleDerefFpImm { base_off, imm, src_off } => {
            let b = get(m, at(*base_off), true)?;
            let v = get(m, at(*src_off), true)?;
            put(m, add(b, imm.0), v)?
        }
        I::StoreToDoubleDerefFpFp { base_off, offset_off, src_off } => {
            let b = get(m, at(*base_off), true)?;
            let o = get(m, at(*offset_off), true)?;
            let v = get(m, at(*src_off), true)?;
            put(m, add(b, o), v)?
        }
        I::StoreImm { imm, dst_off } => put(m, at(*dst_off), imm.0)?,
        I::StoreFramePointer { imm, dst_off } => put(m, at(*dst_off), add(fp, imm.0))?,
        I::CallAbsImm { frame_off, target } => {
            put(m, at(*frame_off), fp)?;
            put(m, add(at(*frame_off), 1), next)?;
            nfp = add(at(*frame_off), 2);
            next = target.0;
        }
        I::Ret {} => {
            next = get(m, sub(fp, 1), true)?;
            nfp = get(m, sub(fp, 2), true)?;
        }
        I::JmpAbsImm { target } => next = target.0,
        I::JmpRelImm { offset } => next = add(pc, offset.0),
        I::JnzFpImm { cond_off, offset } => {
            if get(m, at(*cond_off), true)? != 0 {
                next = add(pc, offset.0);
            }
        }
        I::U32StoreAddFpFp { src0_off, src1_off, dst_off } => u!(src0_off, src1_off, dst_off, |a, b| a + b),
        I::U32StoreSubFpFp { src0_off, src1_off, dst_off } => u!(src0_off, src1_off, dst_off, |a: u64, b| a + (1 << 32) - b),
        I::U32StoreMulFpFp { src0_off, src1_off, dst_off } => u!(src0_off, src1_off, dst_off, |a, b| a * b),
        I::U32StoreAndFpFp { src0_off, src1_off, dst_off } => u!(src0_off, src1_off, dst_off, |a, b| a & b),
        I::U32StoreOrFpFp { src0_off, src1_off, dst_off } => u!(src0_off, src1_off, dst_off, |a, b| a | b),
        I::U32StoreXorFpFp { src0_off, src1_off, dst_off } => u!(src0_off, src1_off, dst_off, |a, b| a ^ b),
        I::U32StoreAddFpImm { src_off, imm_lo, imm_hi, dst_off } => ui!(src_off, imm_lo, imm_hi, dst_off, |a, b| a + b),
        I::U32StoreMulFpImm { src_off, imm_lo, imm_hi, dst_off } => ui!(src_off, imm_lo, imm_hi, dst_off, |a, b| a * b),
        I::U32StoreAndFpImm { src_off, imm_lo, imm_hi, dst_off } => ui!(src_off, imm_lo, imm_hi, dst_off, |a, b| a & b),
        I::U32StoreOrFpImm { src_off, imm_lo, imm_hi, dst_off } => ui!(src_off, imm_lo, imm_hi, dst_off, |a, b| a | b),
        I::U32StoreXorFpImm { src_off, imm_lo, imm_hi, dst_off } => ui!(src_off, imm_lo, imm_hi, dst_off, |a, b| a ^ b),
        I::U32StoreDivRemFpFp { src0_off, src1_off, dst_off, dst_rem_off } => {
            let a = get32(m, at(*src0_off), true)?;
            let b = get32(m, at(*src1_off), true)?;
            if b == 0 {
                return Err(Fail);
            }
            put32(m, at(*dst_off), a / b)?;
            put32(m, at(*dst_rem_off), a % b)?
        }
        I::U32StoreDivRemFpImm { src_off, imm_lo, imm_hi, dst_off, dst_rem_off } => {
            let b = imm32(*imm_lo, *imm_hi)?;
            let a = get32(m, at(*src_off), true)?;
            if b == 0 {
                return Err(Fail);
            }
            put32(m, at(*dst_off), a / b)?;
            put32(m, at(*dst_rem_off), a % b)?
        }
        I::U32StoreImm { imm_lo, imm_hi, dst_off } => {
            let v = imm32(*imm_lo, *imm_hi)?;
            put32(m, at(*dst_off), v)?
        }
        I::U32StoreEqFpFp { src0_off, src1_off, dst_off } => {
            let (a, b) = (get32(m, at(*src0_off), true)?, get32(m, at(*src1_off), true)?);
            put(m, at(*dst_off), (a == b) as u32)?
        }
        I::U32StoreLtFpFp { src0_off, src1_off, dst_off } => {
            let (a, b) = (get32(m, at(*src0_off), true)?, get32(m, at(*src1_off), true)?);
            put(m, at(*dst_off), (a < b) as u32)?
        }
        I::U32StoreEqFpImm { src_off, imm_lo, imm_hi, dst_off } => {
            let b = imm32(*imm_lo, *imm_hi)?;
            let a = get32(m, at(*src_off), true)?;
            put(m, at(*dst_off), (a == b) as u32)?
        }
        I::U32StoreLtFpImm { src_off, imm_lo, imm_hi, dst_off } => {
            let b = imm32(*imm_lo, *imm_hi)?;
            let a = get32(m, at(*src_off), true)?;
            put(m, at(*dst_off), (a < b) as u32)?
        }
        // debugging instructions: nothing but the check of what they read
        I::PrintM31 { offset } => {
            get(m, at(*offset), false)?;
        }
        I::PrintU32 { offset } => {
            get32(m, at(*offset), false)?;
        }
    }
    Ok((next, nfp))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    /// offset of a cell from the frame pointer
    O,
    /// field immediate
    F,
    /// 16-bit limb of an immediate
    L,
    /// program address
    A,
    /// relative program address
    J,
}
pub struct Op {
    pub name: &'static str,
    pub kinds: &'static [K],
    pub make: fn(&[M31]) -> I,
    /// the operands of the instruction, in order
    pub parts: fn(&I) -> Option<Vec<M31>>,
}
macro_rules! ops {
    ($($n:ident { $($f:ident : $k:ident),* };)*) => {
        pub const OPS: &[Op] = &[$(Op {
            name: stringify!($n),
            kinds: &[$(K::$k),*],
            make: |v| { let mut _it = v.iter(); I::$n { $($f: *_it.next().unwrap()),* } },
            parts: |i| match i { I::$n { $($f),* } => Some(vec![$(*$f),*]), _ => None },
        }),*];
    };
}
ops! {
    StoreAddFpFp { src0_off: O, src1_off: O, dst_off: O };
    StoreSubFpFp { src0_off: O, src1_off: O, dst_off: O };
    StoreMulFpFp { src0_off: O, src1_off: O, dst_off: O };
    StoreDivFpFp { src0_off: O, src1_off: O, dst_off: O };
    StoreAddFpImm { src_off: O, imm: F, dst_off: O };
    StoreMulFpImm { src_off: O, imm: F, dst_off: O };
    StoreLeFpImm { src_off: O, imm: F, dst_off: O };
    AssertEqFpImm { src_off: O, imm: F };
    StoreDoubleDerefFp { base_off: O, imm: F, dst_off: O };
    StoreDoubleDerefFpFp { base_off: O, offset_off: O, dst_off: O };
    StoreImm { imm: F, dst_off: O };
    StoreFramePointer { imm: F, dst_off: O };
    CallAbsImm { frame_off: O, target: A };
    Ret {};
    JmpAbsImm { target: A };
    JmpRelImm { offset: J };
    JnzFpImm { cond_off: O, offset: J };
    U32StoreAddFpFp { src0_off: O, src1_off: O, dst_off: O };
    U32StoreSubFpFp { src0_off: O, src1_off: O, dst_off: O };
    U32StoreMulFpFp { src0_off: O, src1_off: O, dst_off: O };
    U32StoreDivRemFpFp { src0_off: O, src1_off: O, dst_off: O, dst_rem_off: O };
    U32StoreAddFpImm { src_off: O, imm_lo: L, imm_hi: L, dst_off: O };
    U32StoreMulFpImm { src_off: O, imm_lo: L, imm_hi: L, dst_off: O };
    U32StoreDivRemFpImm { src_off: O, imm_lo: L, imm_hi: L, dst_off: O, dst_rem_off: O };
    U32StoreImm { imm_lo: L, imm_hi: L, dst_off: O };
    U32StoreEqFpFp { src0_off: O, src1_off: O, dst_off: O };
    U32StoreLtFpFp { src0_off: O, src1_off: O, dst_off: O };
    U32StoreEqFpImm { src_off: O, imm_lo: L, imm_hi: L, dst_off: O };
    U32StoreLtFpImm { src_off: O, imm_lo: L, imm_hi: L, dst_off: O };
    U32StoreAndFpFp { src0_off: O, src1_off: O, dst_off: O };
    U32StoreOrFpFp { src0_off: O, src1_off: O, dst_off: O };
    U32StoreXorFpFp { src0_off: O, src1_off: O, dst_off: O };
    U32StoreAndFpImm { src_off: O, imm_lo: L, imm_hi: L, dst_off: O };
    U32StoreOrFpImm { src_off: O, imm_lo: L, imm_hi: L, dst_off: O };
    U32StoreXorFpImm { src_off: O, imm_lo: L, imm_hi: L, dst_off: O };
    StoreToDoubleDerefFpImm { base_off: O, imm: F, src_off: O };
    StoreToDoubleDerefFpFp { base_off: O, offset_off: O, src_off: O };
    PrintM31 { offset: O };
    PrintU32 { offset: O };
}

/// Memory of a whole run.
#[derive(Clone, Default, Debug)]
pub struct Map {
    pub cells: BTreeMap<u32, W>,
    pub log: Vec<Acc>,
}
impl Mem for Map {
    fn load(&mut self, a: u32) -> W {
        self.cells.get(&a).copied().unwrap_or_default()
    }
    fn store(&mut self, a: u32, w: W) {
        self.cells.insert(a, w);
    }
    fn log(&mut self, a: Acc) {
        self.log.push(a)
    }
}
pub fn word(q: &QM31) -> W {
    q.to_m31_array().map(|x| x.0)
}
pub fn qm(w: W) -> QM31 {
    QM31::from_m31_array(w.map(M31))
}
