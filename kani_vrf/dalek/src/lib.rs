//! Contract of curve25519-dalek as assumed here: Ristretto is a module over the
//! ring of scalars, encodings are unique, and only encodings of points decode.
//! The module is Z/32 over itself, generated by the base point (values stay reduced).
pub mod scalar {
    use crate::M;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Hash)]
    pub struct Scalar(pub u8);
    impl Scalar {
        pub const ZERO: Scalar = Scalar(0);
        pub const ONE: Scalar = Scalar(1);
        pub fn from_bytes_mod_order(b: [u8; 32]) -> Scalar {
            Scalar(b[0] & M)
        }
        pub fn from_canonical_bytes(b: [u8; 32]) -> crate::CtOption<Scalar> {
            let ok = crate::rest(&b);
            crate::CtOption(if ok { Some(Scalar(b[0])) } else { None })
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            let mut b = [0; 32];
            b[0] = self.0;
            b
        }
        pub fn as_bytes(&self) -> &[u8; 32] {
            Box::leak(Box::new(self.to_bytes()))
        }
    }
    impl From<u64> for Scalar {
        fn from(x: u64) -> Scalar {
            Scalar(x as u8 & M)
        }
    }
}
pub mod ristretto {
    use crate::{add, mul};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub struct RistrettoPoint(pub u8);
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Hash)]
    pub struct CompressedRistretto(pub [u8; 32]);
    #[derive(Clone, Debug)]
    pub struct RistrettoBasepointTable;
    impl RistrettoPoint {
        pub fn compress(&self) -> CompressedRistretto {
            CompressedRistretto(crate::encode(self.0))
        }
        pub fn mul_base(s: &crate::Scalar) -> RistrettoPoint {
            RistrettoPoint(s.0)
        }
        pub fn vartime_double_scalar_mul_basepoint(a: &crate::Scalar, p: &RistrettoPoint, b: &crate::Scalar) -> RistrettoPoint {
            RistrettoPoint(add(mul(a.0, p.0), b.0))
        }
    }
    impl crate::traits::Identity for RistrettoPoint {
        fn identity() -> Self {
            RistrettoPoint(0)
        }
    }
    impl CompressedRistretto {
        pub fn decompress(&self) -> Option<RistrettoPoint> {
            crate::decode(&self.0).map(RistrettoPoint)
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn as_bytes(&self) -> &[u8; 32] {
            &self.0
        }
        pub fn from_slice(b: &[u8]) -> Result<CompressedRistretto, core::array::TryFromSliceError> {
            b.try_into().map(CompressedRistretto)
        }
    }
}
pub mod constants {
    use super::ristretto::*;
    pub const RISTRETTO_BASEPOINT_COMPRESSED: CompressedRistretto = CompressedRistretto(super::BASE);
    pub const RISTRETTO_BASEPOINT_POINT: RistrettoPoint = RistrettoPoint(1);
    pub static RISTRETTO_BASEPOINT_TABLE: &RistrettoBasepointTable = &RistrettoBasepointTable;
}
pub mod traits {
    pub trait Identity {
        fn identity() -> Self;
    }
    pub trait IsIdentity {
        fn is_identity(&self) -> bool;
    }
    impl<T: Identity + PartialEq> IsIdentity for T {
        fn is_identity(&self) -> bool {
            *self == T::identity()
        }
    }
}
pub use ristretto::RistrettoPoint;
pub use scalar::Scalar;

pub struct CtOption<T>(pub Option<T>);
impl<T> CtOption<T> {
    pub fn into_option(self) -> Option<T> {
        self.0
    }
}
impl<T> From<CtOption<T>> for Option<T> {
    fn from(c: CtOption<T>) -> Option<T> {
        c.0
    }
}

/// the encoding of the base point
pub const BASE: [u8; 32] = [
    226, 242, 174, 10, 106, 188, 78, 113, 168, 132, 169, 97, 197, 0, 81, 95, 88, 227, 11, 106, 165, 130, 221, 141, 182, 166, 89, 69, 224, 141, 45, 118,
];
/// largest ring element; a mask
pub const M: u8 = 31;
pub fn mul(x: u8, y: u8) -> u8 {
    x.wrapping_mul(y) & M
}
pub fn add(x: u8, y: u8) -> u8 {
    x.wrapping_add(y) & M
}
pub fn sub(x: u8, y: u8) -> u8 {
    x.wrapping_sub(y) & M
}
/// b is the unique encoding of a ring element
pub fn rest(b: &[u8; 32]) -> bool {
    b[0] <= M && b[1..] == [0; 31]
}
pub fn encode(v: u8) -> [u8; 32] {
    if v == 1 {
        return BASE;
    }
    let mut b = [0; 32];
    b[0] = v;
    b
}
pub fn decode(b: &[u8; 32]) -> Option<u8> {
    if *b == BASE {
        Some(1)
    } else if b[0] != 1 && rest(b) {
        Some(b[0])
    } else {
        None
    }
}

use core::ops::*;
use ristretto::RistrettoBasepointTable as Table;
macro_rules! op {
    ($tr:ident, $m:ident, $a:ty, $b:ty, $o:ty, |$x:ident, $y:ident| $e:expr) => {
        impl $tr<$b> for $a {
            type Output = $o;
            fn $m(self, rhs: $b) -> $o {
                let ($x, $y) = (&self, &rhs);
                $e
            }
        }
        impl<'a> $tr<&'a $b> for $a {
            type Output = $o;
            fn $m(self, $y: &'a $b) -> $o {
                let $x = &self;
                $e
            }
        }
        impl<'b> $tr<$b> for &'b $a {
            type Output = $o;
            fn $m(self, rhs: $b) -> $o {
                let ($x, $y) = (self, &rhs);
                $e
            }
        }
        impl<'a, 'b> $tr<&'a $b> for &'b $a {
            type Output = $o;
            fn $m(self, $y: &'a $b) -> $o {
                let $x = self;
                $e
            }
        }
    };
}
op!(Mul, mul, Scalar, Scalar, Scalar, |x, y| Scalar(mul(x.0, y.0)));
op!(Add, add, Scalar, Scalar, Scalar, |x, y| Scalar(add(x.0, y.0)));
op!(Sub, sub, Scalar, Scalar, Scalar, |x, y| Scalar(sub(x.0, y.0)));
op!(Mul, mul, Scalar, RistrettoPoint, RistrettoPoint, |x, y| RistrettoPoint(mul(x.0, y.0)));
op!(Mul, mul, RistrettoPoint, Scalar, RistrettoPoint, |x, y| RistrettoPoint(mul(x.0, y.0)));
op!(Add, add, RistrettoPoint, RistrettoPoint, RistrettoPoint, |x, y| RistrettoPoint(add(x.0, y.0)));
op!(Sub, sub, RistrettoPoint, RistrettoPoint, RistrettoPoint, |x, y| RistrettoPoint(sub(x.0, y.0)));
op!(Mul, mul, Scalar, Table, RistrettoPoint, |x, _y| RistrettoPoint(x.0));
op!(Mul, mul, Table, Scalar, RistrettoPoint, |_x, y| RistrettoPoint(y.0));
impl Neg for Scalar {
    type Output = Scalar;
    fn neg(self) -> Scalar {
        Scalar(sub(0, self.0))
    }
}
impl Neg for RistrettoPoint {
    type Output = RistrettoPoint;
    fn neg(self) -> RistrettoPoint {
        RistrettoPoint(sub(0, self.0))
    }
}
impl AddAssign for Scalar {
    fn add_assign(&mut self, o: Scalar) {
        *self = *self + o
    }
}
impl MulAssign for Scalar {
    fn mul_assign(&mut self, o: Scalar) {
        *self = *self * o
    }
}
impl AddAssign for RistrettoPoint {
    fn add_assign(&mut self, o: RistrettoPoint) {
        *self = *self + o
    }
}
