//! Stand-in for `stwo_air_utils`: a trace of `N` columns, filled sixteen rows at a time.
pub mod trace {
    pub mod component_trace {
        use stwo_prover::core::backend::simd::m31::{PackedM31, LOG_N_LANES};
        use stwo_prover::core::backend::simd::SimdBackend;
        use stwo_prover::core::fields::m31::M31;
        use stwo_prover::core::poly::circle::{CanonicCoset, CircleEvaluation};
        use stwo_prover::core::poly::BitReversedOrder;
        /// What an unwritten cell holds: a value no honest trace contains.
        pub const POISON: u32 = 1_234_567_891;
        pub struct ComponentTrace<const N: usize> {
            pub data: [Vec<PackedM31>; N],
            log_size: u32,
        }
        impl<const N: usize> ComponentTrace<N> {
            /// # Safety
            /// Always safe here.
            pub unsafe fn uninitialized(log_size: u32) -> Self {
                let n = 1usize << (log_size - LOG_N_LANES);
                Self { data: std::array::from_fn(|_| vec![PackedM31::broadcast(M31(POISON)); n]), log_size }
            }
            pub fn log_size(&self) -> u32 {
                self.log_size
            }
            pub fn par_iter_mut(&mut self) -> Vec<[&mut PackedM31; N]> {
                let n = self.data[0].len();
                let mut its = self.data.each_mut().map(|c| c.iter_mut());
                (0..n).map(|_| its.each_mut().map(|i| i.next().unwrap())).collect()
            }
            pub fn to_evals(self) -> [CircleEvaluation<SimdBackend, M31, BitReversedOrder>; N] {
                let domain = CanonicCoset::new(self.log_size).circle_domain();
                self.data.map(|c| CircleEvaluation::new(domain, c.iter().flat_map(|p| p.to_array()).collect()))
            }
        }
    }
}
