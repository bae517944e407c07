//! Sixteen-lane field vectors, lane by lane.
use crate::ext::QM31;
use crate::field::{FieldExpOps, M31};
use num_traits::{One, Zero};
use std::ops::*;

pub const LOG_N_LANES: u32 = 4;
pub const N_LANES: usize = 16;

pub trait Pack: Copy {
    type SimdType;
    fn pack(inputs: [Self; N_LANES]) -> Self::SimdType;
}

macro_rules! packed {
    ($name:ident, $f:ident) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub struct $name(pub [$f; N_LANES]);
        impl $name {
            pub fn from_array(a: [$f; N_LANES]) -> Self {
                Self(a)
            }
            pub fn to_array(self) -> [$f; N_LANES] {
                self.0
            }
            pub fn broadcast(v: $f) -> Self {
                Self([v; N_LANES])
            }
            pub fn zip(self, o: Self, f: impl Fn($f, $f) -> $f) -> Self {
                Self(std::array::from_fn(|i| f(self.0[i], o.0[i])))
            }
        }
        impl From<$f> for $name {
            fn from(v: $f) -> Self {
                Self::broadcast(v)
            }
        }
        impl From<[$f; N_LANES]> for $name {
            fn from(v: [$f; N_LANES]) -> Self {
                Self(v)
            }
        }
        impl Add for $name {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                self.zip(o, |a, b| a + b)
            }
        }
        impl Sub for $name {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                self.zip(o, |a, b| a - b)
            }
        }
        impl Mul for $name {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                self.zip(o, |a, b| a * b)
            }
        }
        impl Neg for $name {
            type Output = Self;
            fn neg(self) -> Self {
                Self(self.0.map(|a| -a))
            }
        }
        impl Add<$f> for $name {
            type Output = Self;
            fn add(self, o: $f) -> Self {
                self + Self::broadcast(o)
            }
        }
        impl Sub<$f> for $name {
            type Output = Self;
            fn sub(self, o: $f) -> Self {
                self - Self::broadcast(o)
            }
        }
        impl Mul<$f> for $name {
            type Output = Self;
            fn mul(self, o: $f) -> Self {
                self * Self::broadcast(o)
            }
        }
        impl AddAssign for $name {
            fn add_assign(&mut self, o: Self) {
                *self = *self + o;
            }
        }
        impl SubAssign for $name {
            fn sub_assign(&mut self, o: Self) {
                *self = *self - o;
            }
        }
        impl MulAssign for $name {
            fn mul_assign(&mut self, o: Self) {
                *self = *self * o;
            }
        }
        impl Zero for $name {
            fn zero() -> Self {
                Self::broadcast($f::zero())
            }
            fn is_zero(&self) -> bool {
                self.0.iter().all(|x| x.is_zero())
            }
        }
        impl One for $name {
            fn one() -> Self {
                Self::broadcast($f::one())
            }
        }
        impl FieldExpOps for $name {
            fn square(&self) -> Self {
                *self * *self
            }
            fn pow(&self, e: u128) -> Self {
                Self(self.0.map(|a| FieldExpOps::pow(&a, e)))
            }
            fn inverse(&self) -> Self {
                Self(self.0.map(|a| FieldExpOps::inverse(&a)))
            }
        }
    };
}
packed!(PackedM31, M31);
packed!(PackedQM31, QM31);

impl From<PackedM31> for PackedQM31 {
    fn from(v: PackedM31) -> Self {
        Self(v.0.map(QM31::from))
    }
}
impl Mul<PackedM31> for PackedQM31 {
    type Output = Self;
    fn mul(self, o: PackedM31) -> Self {
        Self(std::array::from_fn(|i| self.0[i] * o.0[i]))
    }
}
impl Add<PackedM31> for PackedQM31 {
    type Output = Self;
    fn add(self, o: PackedM31) -> Self {
        self + PackedQM31::from(o)
    }
}
