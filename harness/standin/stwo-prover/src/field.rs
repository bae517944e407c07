use num_traits::{One, Zero};
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::*;

pub const P: u32 = 2147483647;

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[repr(transparent)]
pub struct M31(pub u32);
pub type BaseField = M31;

impl M31 {
    pub const fn from_u32_unchecked(v: u32) -> Self {
        M31(v)
    }
    pub const fn partial_reduce(v: u32) -> Self {
        M31(if v >= P { v - P } else { v })
    }
    pub const fn reduce(v: u64) -> Self {
        M31((v % P as u64) as u32)
    }
    pub fn inverse(&self) -> Self {
        assert!(self.0 % P != 0, "0 has no inverse");
        self.pow((P - 2) as u128)
    }
    pub fn pow(&self, mut e: u128) -> Self {
        let mut b = *self;
        let mut r = M31(1);
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b *= b;
            e >>= 1;
        }
        r
    }
    pub fn square(&self) -> Self {
        *self * *self
    }
    pub const fn is_zero_const(&self) -> bool {
        self.0 == 0
    }
}
pub trait FieldExpOps: Mul<Output = Self> + MulAssign + Clone + One + Sized {
    fn square(&self) -> Self;
    fn pow(&self, e: u128) -> Self;
    fn inverse(&self) -> Self;
    fn batch_inverse(column: &[Self]) -> Vec<Self> {
        column.iter().map(|x| x.inverse()).collect()
    }
}
impl FieldExpOps for M31 {
    fn square(&self) -> Self {
        *self * *self
    }
    fn pow(&self, e: u128) -> Self {
        M31::pow(self, e)
    }
    fn inverse(&self) -> Self {
        M31::inverse(self)
    }
}
impl fmt::Display for M31 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl From<u32> for M31 {
    fn from(v: u32) -> Self {
        M31::reduce(v as u64)
    }
}
impl From<usize> for M31 {
    fn from(v: usize) -> Self {
        M31::reduce(v as u64)
    }
}
impl From<i32> for M31 {
    fn from(v: i32) -> Self {
        if v < 0 {
            -M31::reduce(v.unsigned_abs() as u64)
        } else {
            M31::reduce(v as u64)
        }
    }
}
impl Add for M31 {
    type Output = M31;
    fn add(self, o: M31) -> M31 {
        M31::reduce(self.0 as u64 + o.0 as u64)
    }
}
impl Sub for M31 {
    type Output = M31;
    fn sub(self, o: M31) -> M31 {
        M31::reduce(self.0 as u64 + P as u64 - (o.0 % P) as u64)
    }
}
impl Mul for M31 {
    type Output = M31;
    fn mul(self, o: M31) -> M31 {
        M31::reduce(self.0 as u64 * o.0 as u64)
    }
}
impl Div for M31 {
    type Output = M31;
    #[allow(clippy::suspicious_arithmetic_impl)]
    fn div(self, o: M31) -> M31 {
        self * o.inverse()
    }
}
impl Neg for M31 {
    type Output = M31;
    fn neg(self) -> M31 {
        M31::reduce(P as u64 - (self.0 % P) as u64)
    }
}
macro_rules! assign {
    ($($t:ident $f:ident $op:tt),*) => { $(impl $t for M31 { fn $f(&mut self, o: M31) { *self = *self $op o; } })* };
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /);
impl Zero for M31 {
    fn zero() -> Self {
        M31(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for M31 {
    fn one() -> Self {
        M31(1)
    }
}
impl std::iter::Sum for M31 {
    fn sum<I: Iterator<Item = M31>>(i: I) -> M31 {
        i.fold(M31(0), |a, b| a + b)
    }
}

unsafe impl bytemuck::Pod for M31 {}
unsafe impl bytemuck::Zeroable for M31 {}
