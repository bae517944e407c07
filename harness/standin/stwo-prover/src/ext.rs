use crate::field::{FieldExpOps, M31};
use num_traits::{One, Zero};
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::*;

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct CM31(pub M31, pub M31);
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct QM31(pub CM31, pub CM31);
pub type SecureField = QM31;

impl CM31 {
    pub const fn from_m31(a: M31, b: M31) -> Self {
        CM31(a, b)
    }
    pub const fn from_u32_unchecked(a: u32, b: u32) -> Self {
        CM31(M31(a), M31(b))
    }
}
impl QM31 {
    pub const fn from_u32_unchecked(a: u32, b: u32, c: u32, d: u32) -> Self {
        QM31(CM31(M31(a), M31(b)), CM31(M31(c), M31(d)))
    }
    pub const fn from_m31(a: M31, b: M31, c: M31, d: M31) -> Self {
        QM31(CM31(a, b), CM31(c, d))
    }
    pub const fn from_m31_array(v: [M31; 4]) -> Self {
        QM31::from_m31(v[0], v[1], v[2], v[3])
    }
    pub const fn to_m31_array(self) -> [M31; 4] {
        [self.0 .0, self.0 .1, self.1 .0, self.1 .1]
    }
}
impl fmt::Display for QM31 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "({} + {}i) + ({} + {}i)u", self.0 .0, self.0 .1, self.1 .0, self.1 .1)
    }
}
impl From<M31> for QM31 {
    fn from(v: M31) -> Self {
        QM31::from_m31(v, M31(0), M31(0), M31(0))
    }
}
impl From<u32> for QM31 {
    fn from(v: u32) -> Self {
        M31::from(v).into()
    }
}
impl TryInto<M31> for QM31 {
    type Error = ();
    fn try_into(self) -> Result<M31, ()> {
        let [a, b, c, d] = self.to_m31_array();
        if b.0 == 0 && c.0 == 0 && d.0 == 0 {
            Ok(a)
        } else {
            Err(())
        }
    }
}
impl Add for CM31 {
    type Output = CM31;
    fn add(self, o: CM31) -> CM31 {
        CM31(self.0 + o.0, self.1 + o.1)
    }
}
impl Mul for CM31 {
    type Output = CM31;
    fn mul(self, o: CM31) -> CM31 {
        CM31(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}
impl Add for QM31 {
    type Output = QM31;
    fn add(self, o: QM31) -> QM31 {
        QM31(self.0 + o.0, self.1 + o.1)
    }
}
impl Mul for QM31 {
    type Output = QM31;
    fn mul(self, o: QM31) -> QM31 {
        let r = CM31(M31(2), M31(1));
        QM31(self.0 * o.0 + r * self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}
impl Zero for QM31 {
    fn zero() -> Self {
        QM31::default()
    }
    fn is_zero(&self) -> bool {
        *self == QM31::default()
    }
}
impl One for QM31 {
    fn one() -> Self {
        M31(1).into()
    }
}
impl Zero for CM31 {
    fn zero() -> Self {
        CM31::default()
    }
    fn is_zero(&self) -> bool {
        *self == CM31::default()
    }
}

pub const SECURE_EXTENSION_DEGREE: usize = 4;
impl Sub for CM31 {
    type Output = CM31;
    fn sub(self, o: CM31) -> CM31 {
        CM31(self.0 - o.0, self.1 - o.1)
    }
}
impl Sub for QM31 {
    type Output = QM31;
    fn sub(self, o: QM31) -> QM31 {
        QM31(self.0 - o.0, self.1 - o.1)
    }
}
impl Neg for QM31 {
    type Output = QM31;
    fn neg(self) -> QM31 {
        QM31::default() - self
    }
}
impl Add<M31> for QM31 {
    type Output = QM31;
    fn add(self, o: M31) -> QM31 {
        self + QM31::from(o)
    }
}
impl Sub<M31> for QM31 {
    type Output = QM31;
    fn sub(self, o: M31) -> QM31 {
        self - QM31::from(o)
    }
}
impl Mul<M31> for QM31 {
    type Output = QM31;
    fn mul(self, o: M31) -> QM31 {
        QM31::from_m31_array(self.to_m31_array().map(|x| x * o))
    }
}
impl Add<QM31> for M31 {
    type Output = QM31;
    fn add(self, o: QM31) -> QM31 {
        o + self
    }
}
impl Mul<QM31> for M31 {
    type Output = QM31;
    fn mul(self, o: QM31) -> QM31 {
        o * self
    }
}
impl AddAssign for QM31 {
    fn add_assign(&mut self, o: QM31) {
        *self = *self + o;
    }
}
impl SubAssign for QM31 {
    fn sub_assign(&mut self, o: QM31) {
        *self = *self - o;
    }
}
impl MulAssign for QM31 {
    fn mul_assign(&mut self, o: QM31) {
        *self = *self * o;
    }
}
impl AddAssign<M31> for QM31 {
    fn add_assign(&mut self, o: M31) {
        *self = *self + o;
    }
}
impl FieldExpOps for QM31 {
    fn square(&self) -> Self {
        *self * *self
    }
    fn pow(&self, mut e: u128) -> Self {
        let (mut b, mut r) = (*self, QM31::one());
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b *= b;
            e >>= 1;
        }
        r
    }
    fn inverse(&self) -> Self {
        let r = CM31(M31(2), M31(1));
        let d = self.0 * self.0 - r * self.1 * self.1;
        let n = (d.0 * d.0 + d.1 * d.1).inverse();
        let di = CM31(d.0 * n, (M31(0) - d.1) * n);
        let z = CM31::default();
        QM31(self.0 * di, (z - self.1) * di)
    }
}
impl std::iter::Sum for QM31 {
    fn sum<I: Iterator<Item = QM31>>(i: I) -> QM31 {
        i.fold(QM31::default(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a QM31> for QM31 {
    fn sum<I: Iterator<Item = &'a QM31>>(i: I) -> QM31 {
        i.fold(QM31::default(), |a, b| a + *b)
    }
}
