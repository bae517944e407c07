//! Stand-in for `zkhash`'s Poseidon2 over M31 with a state of 16. The structure is the reference
//! one (8 external and 14 internal rounds, x^5, circ(2M4, M4, M4, M4), J + diag); the round
//! constants and the diagonal are of this file's own making, since the library is not available.
pub mod ark_ff {
    pub struct BigInt(pub [u64; 1]);
    pub trait PrimeField {
        fn into_bigint(self) -> BigInt;
    }
}
pub mod fields {
    pub mod m31 {
        pub const P: u64 = 2147483647;
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub struct FpM31(pub u64);
        impl FpM31 {
            pub fn zero() -> Self {
                FpM31(0)
            }
        }
        impl From<u32> for FpM31 {
            fn from(v: u32) -> Self {
                FpM31(v as u64 % P)
            }
        }
        impl crate::ark_ff::PrimeField for FpM31 {
            fn into_bigint(self) -> crate::ark_ff::BigInt {
                crate::ark_ff::BigInt([self.0])
            }
        }
        impl std::ops::Add for FpM31 {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                FpM31((self.0 + o.0) % P)
            }
        }
        impl std::ops::Mul for FpM31 {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                FpM31(self.0 * o.0 % P)
            }
        }
        impl num_zero::Zero for FpM31 {}
        pub mod num_zero {
            pub trait Zero {}
        }
    }
}
pub mod poseidon2 {
    pub mod poseidon2_instance_m31 {
        use crate::fields::m31::{FpM31, P};
        use std::sync::{Arc, LazyLock};
        fn gen(i: u64) -> FpM31 {
            let mut z = (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            FpM31((z ^ (z >> 31)) % P)
        }
        pub static RC16: LazyLock<Vec<Vec<FpM31>>> = LazyLock::new(|| {
            (0..22)
                .map(|r| (0..16).map(|i| if (4..18).contains(&r) && i > 0 { FpM31(0) } else { gen(r * 16 + i) }).collect())
                .collect()
        });
        pub static MAT_DIAG16_M_1: LazyLock<Vec<FpM31>> = LazyLock::new(|| (0..16).map(|i| gen(1000 + i)).collect());
        pub struct Poseidon2Params {
            pub rf: usize,
            pub rp: usize,
        }
        pub static POSEIDON2_M31_16_PARAMS: LazyLock<Arc<Poseidon2Params>> =
            LazyLock::new(|| Arc::new(Poseidon2Params { rf: 8, rp: 14 }));
    }
    pub mod poseidon2 {
        use super::poseidon2_instance_m31::{Poseidon2Params, MAT_DIAG16_M_1, RC16};
        use crate::fields::m31::FpM31;
        use std::sync::Arc;
        pub struct Poseidon2 {
            params: Arc<Poseidon2Params>,
        }
        const M4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
        fn external(s: &[FpM31]) -> Vec<FpM31> {
            let t: Vec<FpM31> = (0..16)
                .map(|k| (0..4).fold(FpM31(0), |a, j| a + FpM31(M4[k % 4][j]) * s[k / 4 * 4 + j]))
                .collect();
            (0..16).map(|k| (0..4).fold(t[k], |a, b| a + t[4 * b + k % 4])).collect()
        }
        fn pow5(x: FpM31) -> FpM31 {
            x * x * x * x * x
        }
        impl Poseidon2 {
            pub fn new(params: &Arc<Poseidon2Params>) -> Self {
                Self { params: params.clone() }
            }
            pub fn permutation(&self, input: &[FpM31]) -> Vec<FpM31> {
                let (h, p) = (self.params.rf / 2, self.params.rp);
                let mut s = external(input);
                for r in 0..2 * h + p {
                    if r < h || r >= h + p {
                        s = (0..16).map(|i| pow5(s[i] + RC16[r][i])).collect();
                        s = external(&s);
                    } else {
                        s[0] = pow5(s[0] + RC16[r][0]);
                        let sum = s.iter().fold(FpM31(0), |a, b| a + *b);
                        s = (0..16).map(|i| s[i] * MAT_DIAG16_M_1[i] + sum).collect();
                    }
                }
                s
            }
        }
    }
}
