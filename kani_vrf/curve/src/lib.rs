//! Contract of solana-curve25519 as assumed here, over the same module.
pub mod scalar {
    #[repr(transparent)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default, bytemuck::Pod, bytemuck::Zeroable)]
    pub struct PodScalar(pub [u8; 32]);
    impl From<&curve25519_dalek::Scalar> for PodScalar {
        fn from(s: &curve25519_dalek::Scalar) -> Self {
            PodScalar(s.to_bytes())
        }
    }
    impl From<curve25519_dalek::Scalar> for PodScalar {
        fn from(s: curve25519_dalek::Scalar) -> Self {
            PodScalar(s.to_bytes())
        }
    }
}
pub mod ristretto {
    use super::scalar::PodScalar;
    use curve25519_dalek::{add, decode, encode, mul, rest, sub, RistrettoPoint};
    #[repr(transparent)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default, bytemuck::Pod, bytemuck::Zeroable)]
    pub struct PodRistrettoPoint(pub [u8; 32]);
    impl From<&RistrettoPoint> for PodRistrettoPoint {
        fn from(p: &RistrettoPoint) -> Self {
            PodRistrettoPoint(encode(p.0))
        }
    }
    pub fn validate_ristretto(p: &PodRistrettoPoint) -> bool {
        decode(&p.0).is_some()
    }
    pub fn add_ristretto(a: &PodRistrettoPoint, b: &PodRistrettoPoint) -> Option<PodRistrettoPoint> {
        Some(PodRistrettoPoint(encode(add(decode(&a.0)?, decode(&b.0)?))))
    }
    pub fn subtract_ristretto(a: &PodRistrettoPoint, b: &PodRistrettoPoint) -> Option<PodRistrettoPoint> {
        Some(PodRistrettoPoint(encode(sub(decode(&a.0)?, decode(&b.0)?))))
    }
    pub fn multiply_ristretto(s: &PodScalar, p: &PodRistrettoPoint) -> Option<PodRistrettoPoint> {
        if !rest(&s.0) {
            return None;
        }
        Some(PodRistrettoPoint(encode(mul(s.0[0], decode(&p.0)?))))
    }
    pub fn multiscalar_multiply_ristretto(s: &[PodScalar], p: &[PodRistrettoPoint]) -> Option<PodRistrettoPoint> {
        let mut r = 0u8;
        let mut i = 0;
        while i < s.len() {
            if !rest(&s[i].0) {
                return None;
            }
            r = add(r, mul(s[i].0[0], decode(&p[i].0)?));
            i += 1;
        }
        Some(PodRistrettoPoint(encode(r)))
    }
}
pub mod edwards {
    #[repr(transparent)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default, bytemuck::Pod, bytemuck::Zeroable)]
    pub struct PodEdwardsPoint(pub [u8; 32]);
    pub fn validate_edwards(_p: &PodEdwardsPoint) -> bool {
        true
    }
}
