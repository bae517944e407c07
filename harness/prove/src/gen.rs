//! Straight-line programs that exercise one instruction on a grid of operand values.
use crate::common::o;
use crate::refvm::*;
use cairo_m_common::Instruction as I;
use stwo_prover::core::fields::m31::M31;

pub const FELTS: [u32; 9] = [0, 1, 2, 65535, 65536, 1 << 20, 1 << 28, 2147483645, 2147483646];
pub const U32S: [u32; 10] = [0, 1, 2, 0xFFFF, 0x10000, 0x10001, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0001, 0xFFFF_FFFF];

/// Another value of the field.
fn other(v: u32) -> u32 {
    (v ^ 1) % P as u32
}
/// A program under construction: every instance works on cells of its own.
pub struct Build {
    pub code: Vec<I>,
    pub next: i64,
    /// (position of a call, its callee's number)
    pub calls: Vec<usize>,
    pub names: Vec<(u32, String)>,
}
impl Build {
    pub fn new() -> Self {
        Build { code: vec![], next: 0, calls: vec![], names: vec![] }
    }
    pub fn pc(&self) -> u32 {
        self.code.iter().map(words).sum()
    }
    pub fn cell(&mut self, n: i64) -> i64 {
        self.next += n;
        self.next - n
    }
    pub fn felt(&mut self, v: u32) -> i64 {
        let c = self.cell(1);
        self.code.push(I::StoreImm { imm: M31(v), dst_off: o(c) });
        c
    }
    pub fn u32(&mut self, v: u32) -> i64 {
        let c = self.cell(2);
        self.code.push(I::U32StoreImm { imm_lo: M31(v & 0xFFFF), imm_hi: M31(v >> 16), dst_off: o(c) });
        c
    }
    pub fn fp(&mut self, d: i64) -> i64 {
        let c = self.cell(1);
        self.code.push(I::StoreFramePointer { imm: o(d), dst_off: o(c) });
        c
    }
    pub fn op(&mut self, i: I, name: String) {
        self.names.push((self.pc(), name));
        self.code.push(i);
    }
    /// Ends the program; every call goes to a function that returns at once.
    pub fn finish(mut self) -> (Vec<I>, Vec<(u32, String)>) {
        self.code.push(I::Ret {});
        let f = self.pc();
        self.code.push(I::Ret {});
        for c in &self.calls {
            if let I::CallAbsImm { target, .. } = &mut self.code[*c] {
                *target = M31(f);
            }
        }
        (self.code, self.names)
    }
}
fn values(is_u32: bool, few: usize) -> Vec<u32> {
    let v: Vec<u32> = if is_u32 { U32S.to_vec() } else { FELTS.to_vec() };
    match few {
        0 => v,
        n => v.into_iter().step_by(n).collect(),
    }
}
/// All instances of one instruction on `values`; cells are all different.
pub fn grid(b: &mut Build, op: &Op, few: usize) {
    let name = op.name;
    let is32 = name.starts_with("U32");
    let make = |v: &[i64]| (op.make)(&v.iter().map(|x| o(*x)).collect::<Vec<_>>());
    let vs = values(is32, few);
    match name {
        "PrintM31" | "PrintU32" => {}
        "Ret" | "CallAbsImm" => {
            // frames at several distances
            for d in [0, 1, 5, 40] {
                let f = b.next + d;
                b.next += d + 4;
                b.calls.push(b.code.len());
                b.op(I::CallAbsImm { frame_off: o(f), target: M31(0) }, format!("call with frame at {f}"));
            }
        }
        "JmpAbsImm" => {
            for d in [1u32, 2] {
                let t = b.pc() + d;
                b.op(I::JmpAbsImm { target: M31(t) }, format!("jmp +{d}"));
                if d == 2 {
                    b.felt(7);
                }
            }
        }
        "JmpRelImm" => {
            // forwards, then back over a jump
            for d in [1, 2, 3] {
                b.op(I::JmpRelImm { offset: o(d) }, format!("jmp rel {d}"));
                for _ in 1..d {
                    b.felt(7);
                }
            }
            b.op(I::JmpRelImm { offset: o(2) }, "jmp rel 2".into());
            b.op(I::JmpRelImm { offset: o(2) }, "jmp rel 2".into());
            b.op(I::JmpRelImm { offset: o(-1) }, "jmp rel -1".into());
        }
        "JnzFpImm" => {
            for v in &vs {
                let c = b.felt(*v);
                b.op(I::JnzFpImm { cond_off: o(c), offset: o(2) }, format!("jnz {v}"));
                b.felt(1);
            }
            // a loop counting down
            let c = b.felt(3);
            let d = b.cell(1);
            b.code.push(I::StoreAddFpImm { src_off: o(c), imm: o(-1), dst_off: o(d) });
            b.op(I::JnzFpImm { cond_off: o(d), offset: o(2) }, "jnz".into());
            b.felt(1);
        }
        "StoreImm" => {
            for v in &vs {
                let d = b.cell(1);
                b.op(make(&[*v as i64, d]), format!("{name} {v}"));
                b.op(make(&[other(*v) as i64, d]), format!("{name} {v} over a value"));
            }
        }
        "StoreFramePointer" => {
            for v in &vs {
                let d = b.cell(1);
                b.op(make(&[*v as i64, d]), format!("{name} {v}"));
            }
        }
        "U32StoreImm" => {
            for v in &vs {
                let d = b.cell(2);
                b.op(make(&[(*v & 0xFFFF) as i64, (*v >> 16) as i64, d]), format!("{name} {v}"));
            }
        }
        "AssertEqFpImm" => {
            for v in &vs {
                let c = b.felt(*v);
                b.op(make(&[c, *v as i64]), format!("{name} {v}"));
            }
        }
        "StoreDoubleDerefFp" | "StoreToDoubleDerefFpImm" | "StoreDoubleDerefFpFp" | "StoreToDoubleDerefFpFp" => {
            for v in &vs {
                for (k, m) in [(0i64, 0i64), (3, -3), (-2, 2), (-70000, 70000)] {
                    let c = b.felt(*v);
                    let base = b.fp(c + k);
                    let dst = b.cell(1);
                    let n = format!("{name} {v} at {k} + {m}");
                    let to = name.starts_with("StoreTo");
                    // the other cell: read from or written to
                    let i = match name {
                        "StoreDoubleDerefFp" => make(&[base, m, dst]),
                        "StoreDoubleDerefFpFp" => {
                            let of = b.felt(o(m).0);
                            make(&[base, of, dst])
                        }
                        _ => {
                            let src = b.felt(other(*v));
                            if to && name.ends_with("FpFp") {
                                let of = b.felt(o(m).0);
                                make(&[base, of, src])
                            } else {
                                make(&[base, m, src])
                            }
                        }
                    };
                    b.op(i, n);
                }
            }
        }
        _ => {
            let div = name.contains("Div");
            let imm = op.kinds.iter().any(|k| matches!(k, K::F | K::L));
            for x in &vs {
                for y in &vs {
                    if div && *y == 0 {
                        continue;
                    }
                    let mut f: Vec<i64> = vec![];
                    let s = if is32 { b.u32(*x) } else { b.felt(*x) };
                    f.push(s);
                    if imm && is32 {
                        f.extend([(*y & 0xFFFF) as i64, (*y >> 16) as i64]);
                    } else if imm {
                        f.push(*y as i64);
                    } else {
                        let t = if is32 { b.u32(*y) } else { b.felt(*y) };
                        f.push(t);
                    }
                    while f.len() < op.kinds.len() {
                        let d = b.cell(2);
                        f.push(d);
                    }
                    b.op(make(&f), format!("{name} {x} {y}"));
                }
            }
        }
    }
}
