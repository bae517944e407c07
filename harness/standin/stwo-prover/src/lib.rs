//! Stand-in for the part of `stwo_prover` that cairo-m uses: the Mersenne-31 field and its
//! degree-4 extension (exact arithmetic), and an *ideal* STARK: a "commitment" is a hash of columns
//! sent in the clear, and `verify` evaluates every constraint of every component on every row. What
//! the real library establishes with FRI and Fiat-Shamir up to a small error, this one decides
//! exactly.
pub mod core {
    pub type ColumnVec<T> = Vec<T>;
    pub mod fields {
        pub use crate::field::FieldExpOps;
        pub mod m31 {
            pub use crate::field::{BaseField, M31, P};
        }
        pub mod cm31 {
            pub use crate::ext::CM31;
        }
        pub mod qm31 {
            pub use crate::ext::{SecureField, QM31, SECURE_EXTENSION_DEGREE};
        }
    }
    pub mod backend {
        pub use crate::ideal::{Backend, BackendForChannel, Column};
        pub mod simd {
            pub use crate::ideal::SimdBackend;
            pub mod m31 {
                pub use crate::simd::{PackedM31, LOG_N_LANES, N_LANES};
            }
            pub mod qm31 {
                pub use crate::simd::PackedQM31;
            }
            pub mod conversion {
                pub use crate::simd::Pack;
            }
            pub mod column {
                pub use crate::ideal::BaseColumn;
            }
        }
    }
    pub mod channel {
        pub use crate::ideal::{Channel, MerkleChannel};
    }
    pub mod pcs {
        pub use crate::ideal::{CommitmentSchemeProver, CommitmentSchemeVerifier, PcsConfig, TreeVec};
    }
    pub mod fri {
        pub use crate::ideal::FriConfig;
    }
    pub mod poly {
        pub use crate::ideal::BitReversedOrder;
        pub mod circle {
            pub use crate::ideal::{CanonicCoset, CircleEvaluation, PolyOps};
        }
    }
    pub mod proof_of_work {
        pub use crate::ideal::GrindOps;
    }
    pub mod prover {
        pub use crate::ideal::{prove, verify, ProvingError, StarkProof, VerificationError};
    }
    pub mod air {
        pub use crate::ideal::{Component, ComponentProver};
    }
    pub mod vcs {
        pub mod ops {
            pub use crate::ideal::MerkleHasher;
        }
        pub mod blake2_merkle {
            pub use crate::ideal::{Blake2sMerkleChannel, Blake2sMerkleHasher};
        }
    }
}
mod ext;
mod field;
pub mod ideal;
mod simd;
