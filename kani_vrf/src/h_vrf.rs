//! Contracts of the prover and of both verifiers.  The crates under test are
//! compiled from /repo unchanged; the curve, SHA-256 and HKDF are contracts.
use crate::nd::*;
use crate::{check, reach};
use curve25519_dalek::{add, constants::RISTRETTO_BASEPOINT_POINT as G, decode, encode, mul, ristretto::CompressedRistretto as Cr, rest, RistrettoPoint, Scalar, M};
use ephemeral_vrf::vrf::{compute_vrf, generate_vrf_keypair, verify_vrf};
use solana_curve25519::{ristretto::PodRistrettoPoint as Pt, scalar::PodScalar as Sc};
use solana_sdk::signature::Keypair;

const TO_POINT: &[u8] = b"VRF-Ephem-HashToPoint";
const TO_SCALAR: &[u8] = b"VRF-Ephem-HashToScalar";
const CHALLENGE: &[u8] = b"VRF-Ephem-Challenge";

#[cfg(kani)]
pub fn sol_hash(v: &[u8]) -> solana_program::hash::Hash {
    solana_program::hash::Hash::new_from_array(uf::sha(&[v]))
}
#[cfg(kani)]
pub fn sol_hashv(v: &[&[u8]]) -> solana_program::hash::Hash {
    solana_program::hash::Hash::new_from_array(uf::sha(v))
}
fn draw() {
    unsafe { uf::OUTS = any() }
}
fn onchain(pk: &[u8; 32], input: &[u8; 32], out: &[u8; 32], cb: &[u8; 32], ch: &[u8; 32], s: &[u8; 32]) -> bool {
    ephemeral_vrf_api::verify::verify_vrf(&Pt(*pk), input, &Pt(*out), (&Pt(*cb), &Pt(*ch), &Sc(*s)))
}
fn ring() -> u8 {
    let x: u8 = any();
    x & curve25519_dalek::M
}
/// The equations, in the module.
fn spec(pk: &[u8; 32], input: &[u8; 32], out: &[u8; 32], cb: &[u8; 32], ch: &[u8; 32], s: u8) -> Option<bool> {
    let h = uf::sha(&[TO_POINT, input])[0] & M;
    let c = uf::sha(&[TO_SCALAR, &uf::sha(&[CHALLENGE, out, cb, ch, pk, input])])[0] & M;
    let (pk, out, cb, ch) = (decode(pk)?, decode(out)?, decode(cb)?, decode(ch)?);
    Some(s == add(cb, mul(c, pk)) && mul(s, h) == add(ch, mul(c, out)))
}
pub fn complete<const ON: bool>() {
    draw();
    let sk = ring();
    let input: [u8; 32] = any();
    let (out, (cb, ch, s)) = compute_vrf(Scalar(sk), &input);
    let pk = Scalar(sk) * G;
    if ON {
        check!(onchain(&pk.compress().0, &input, &out.0, &cb.0, &ch.0, &s.to_bytes()), "P01: the on-chain verifier accepts an honest proof");
    } else {
        check!(verify_vrf(pk, &input, out, (cb, ch, s)), "P01: the off-chain verifier accepts an honest proof");
    }
    reach!(s.0 == 9, "proved");
    check!(unsafe { !uf::FULL }, "MODEL: too many distinct hash inputs");
}
pub fn complete_off() {
    complete::<false>()
}
pub fn complete_on() {
    complete::<true>()
}
pub fn function() {
    draw();
    let sk = ring();
    let input: [u8; 32] = any();
    let a = compute_vrf(Scalar(sk), &input);
    check!(a == compute_vrf(Scalar(sk), &input), "P01: the proof is a function of key and input");
    check!(a.0 .0 == encode(mul(sk, uf::sha(&[TO_POINT, &input])[0] & M)), "P01: the output is the key times the input's point");
    reach!(a.0 .0[0] == 3, "proved");
    check!(unsafe { !uf::FULL }, "MODEL: too many distinct hash inputs");
}
pub fn keypair() {
    draw();
    let kb: [u8; 64] = any();
    let (x, p) = generate_vrf_keypair(&Keypair(kb));
    let (y, q) = generate_vrf_keypair(&Keypair(kb));
    check!(x == y && p == q && p == x * G, "P01: the public key belongs to the secret key");
    reach!(x.0 == 3, "a key");
    check!(unsafe { !uf::FULL }, "MODEL: too many distinct hash inputs");
}
pub fn off() {
    draw();
    let pk = ring();
    let input: [u8; 32] = any();
    let p: [[u8; 32]; 3] = any();
    let s = ring();
    let e = spec(&encode(pk), &input, &p[0], &p[1], &p[2], s) == Some(true);
    let r = verify_vrf(RistrettoPoint(pk), &input, Cr(p[0]), (Cr(p[1]), Cr(p[2]), Scalar(s)));
    reach!(r, "accepted");
    reach!(!r, "refused");
    check!(!r || e, "P02: the off-chain verifier accepts only if both equations hold");
    check!(r || !e, "P01 P02: the off-chain verifier accepts if both equations hold");
    check!(unsafe { !uf::FULL }, "MODEL: too many distinct hash inputs");
}
pub fn on() {
    draw();
    let p: [[u8; 32]; 4] = any();
    let input: [u8; 32] = any();
    let s: [u8; 32] = any();
    let e = spec(&p[3], &input, &p[0], &p[1], &p[2], s[0]) == Some(true) && rest(&s);
    let r = onchain(&p[3], &input, &p[0], &p[1], &p[2], &s);
    reach!(r, "accepted");
    reach!(!r, "refused");
    check!(!r || e, "P02: the on-chain verifier accepts only if both equations hold");
    check!(r || !e, "P01 P02: the on-chain verifier accepts if both equations hold");
    check!(unsafe { !uf::FULL }, "MODEL: too many distinct hash inputs");
}
/// What the prover hashes carries the prefixes the API publishes; the verifiers
/// hash the same.
pub fn prefix() {
    use ephemeral_vrf_api::prelude as a;
    draw();
    let sk = ring();
    let input: [u8; 32] = any();
    check!(a::RISTRETTO_BASEPOINT_POINT.0 == curve25519_dalek::BASE, "P16: the base point agrees");
    let (out, (cb, ch, s)) = compute_vrf(Scalar(sk), &input);
    let n = unsafe { uf::NEW };
    let pk = (Scalar(sk) * G).compress();
    uf::sha(&[a::VRF_PREFIX_HASH_TO_POINT, &input]);
    let c = uf::sha(&[a::VRF_PREFIX_CHALLENGE, &out.0, &cb.0, &ch.0, &pk.0, &input]);
    uf::sha(&[a::VRF_PREFIX_HASH_TO_SCALAR, &c]);
    check!(unsafe { uf::NEW } == n, "P16: the prover hashes under the API's prefixes");
    let _ = s;
    reach!(n == 6, "proved");
    check!(unsafe { !uf::FULL }, "MODEL: too many distinct hash inputs");
}
macro_rules! proof {
    ($h:ident, $f:ident) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::stub(solana_program::hash::hash, sol_hash)]
        #[kani::stub(solana_program::hash::hashv, sol_hashv)]
        #[kani::unwind(260)]
        fn $h() {
            $f()
        }
    };
}
proof!(k_vrf_complete_off, complete_off);
proof!(k_vrf_complete_on, complete_on);
proof!(k_vrf_function, function);
proof!(k_vrf_keypair, keypair);
proof!(k_vrf_off, off);
proof!(k_vrf_on, on);
proof!(k_vrf_prefix, prefix);
