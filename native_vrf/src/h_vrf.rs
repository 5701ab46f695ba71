use crate::check;
use crate::nd::*;
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, ristretto::CompressedRistretto as Cr, Scalar};
use ephemeral_vrf::vrf::{compute_vrf, generate_vrf_keypair, verify_vrf};
use solana_curve25519::{ristretto::PodRistrettoPoint as Pt, scalar::PodScalar as Sc};
use solana_program::hash::hashv;

const TO_POINT: &[u8] = b"VRF-Ephem-HashToPoint";
const TO_SCALAR: &[u8] = b"VRF-Ephem-HashToScalar";
const CHALLENGE: &[u8] = b"VRF-Ephem-Challenge";

fn h2(p: &[u8], m: &[u8]) -> Scalar {
    Scalar::from_bytes_mod_order(hashv(&[p, m]).to_bytes())
}
fn chal(pk: &[u8; 32], input: &[u8; 32], p: &[[u8; 32]; 3]) -> Scalar {
    h2(TO_SCALAR, &hashv(&[CHALLENGE, &p[0], &p[1], &p[2], pk, input]).to_bytes())
}
fn scalar() -> Scalar {
    let b: [u8; 32] = any();
    Scalar::from_bytes_mod_order(b)
}
/// A panic in the code under test is an answer other than the required one.
fn call<T>(f: impl FnOnce() -> T + std::panic::UnwindSafe) -> Option<T> {
    std::panic::catch_unwind(f).ok()
}
pub fn honest() {
    let sk = scalar();
    let input: [u8; 32] = any();
    let kb: [u8; 32] = any();
    let r = call(move || compute_vrf(sk, &input));
    check!(r.is_some(), "P01: the prover answers");
    let (out, (cb, ch, s)) = r.unwrap();
    let again = compute_vrf(sk, &input);
    check!(out == again.0 && cb == again.1 .0 && ch == again.1 .1 && s == again.1 .2, "P01: the proof is a function of key and input");
    let pk = sk * G;
    check!(call(move || verify_vrf(pk, &input, out, (cb, ch, s))) == Some(true), "P01: the off-chain verifier accepts an honest proof");
    let on = call(move || ephemeral_vrf_api::verify::verify_vrf(&Pt(pk.compress().to_bytes()), &input, &Pt(out.to_bytes()), (&Pt(cb.to_bytes()), &Pt(ch.to_bytes()), &Sc(s.to_bytes()))));
    check!(on == Some(true), "P01: the on-chain verifier accepts an honest proof");
    let k = solana_sdk::signature::Keypair::new_from_array(kb);
    let (x, p) = generate_vrf_keypair(&k);
    let (y, q) = generate_vrf_keypair(&k);
    check!(x == y && p == q && p == x * G, "P01: the public key belongs to the secret key");
}
/// Spec-side transcripts: honest ones, ones satisfying one equation, wrong
/// challenges, non-canonical encodings.
pub fn verdict() {
    let (sk, k, e) = (scalar(), scalar(), scalar());
    let input: [u8; 32] = any();
    let how: u8 = any();
    let bytes: [u8; 32] = any();
    let h = h2(TO_POINT, &input) * G;
    let zero = Scalar::ZERO;
    let (mut pkp, mut out, mut cb, mut ch) = (sk * G, sk * h, k * G, k * h);
    match how % 16 {
        1 => out = e * h,
        2 => ch += e * G,
        3 => cb += e * G,
        4 => out = e * G,
        5 => {
            pkp = zero * G;
            out = e * h;
        }
        _ => {}
    }
    let mut pk = pkp.compress().to_bytes();
    let mut p = [out.compress().to_bytes(), cb.compress().to_bytes(), ch.compress().to_bytes()];
    let mut cin = p;
    let mut cpk = pk;
    let mut inp = input;
    match how / 16 {
        1 => cin[0] = bytes,
        2 => cin[1] = bytes,
        3 => cin[2] = bytes,
        4 => cpk = bytes,
        5 => inp = bytes,
        6 => cin = [bytes; 3],
        _ => {}
    }
    let mut c = chal(&cpk, &inp, &cin);
    if how / 16 == 7 {
        c = e;
    }
    // a transcript made for a challenge known beforehand
    if how / 16 >= 8 && how / 16 < 12 {
        let s0 = e;
        cb = s0 * G - c * pkp;
        ch = s0 * h - c * out;
        p[1] = cb.compress().to_bytes();
        p[2] = ch.compress().to_bytes();
    }
    let mut s = if how / 16 >= 8 && how / 16 < 12 { e } else { k + c * sk }.to_bytes();
    match bytes[0] % 16 {
        1 => p[0] = bytes,
        2 => p[1] = bytes,
        3 => p[2] = bytes,
        4 => s = bytes,
        5 => pk = bytes,
        6 => s[31] |= 0x80,
        7 => {
            // the same scalar, not reduced
            let l: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
            let mut carry = 0u16;
            for i in 0..32 {
                let x = s[i] as u16 + l[i] as u16 + carry;
                s[i] = x as u8;
                carry = x >> 8;
            }
        }
        _ => {}
    }
    let dec = |b: &[u8; 32]| Cr(*b).decompress();
    let sc: Option<Scalar> = Scalar::from_canonical_bytes(s).into();
    let eq = |s: Scalar| -> Option<bool> {
        let (pkp, out, cb, ch) = (dec(&pk)?, dec(&p[0])?, dec(&p[1])?, dec(&p[2])?);
        let c = chal(&pk, &input, &p);
        Some(s * G == cb + c * pkp && s * h == ch + c * out)
    };
    let want = sc.and_then(eq) == Some(true);
    let on = call(move || ephemeral_vrf_api::verify::verify_vrf(&Pt(pk), &input, &Pt(p[0]), (&Pt(p[1]), &Pt(p[2]), &Sc(s))));
    check!(on == Some(true) || !want, "P01 P02: the on-chain verifier accepts if both equations hold");
    check!(on != Some(true) || want, "P02: the on-chain verifier accepts only if both equations hold");
    if let Some(pp) = dec(&pk) {
        let s = Scalar::from_bytes_mod_order(s);
        let want = eq(s) == Some(true);
        let off = call(move || verify_vrf(pp, &input, Cr(p[0]), (Cr(p[1]), Cr(p[2]), s)));
        check!(off == Some(true) || !want, "P01 P02: the off-chain verifier accepts if both equations hold");
        check!(off != Some(true) || want, "P02: the off-chain verifier accepts only if both equations hold");
    }
}
pub fn both() {
    honest();
    verdict();
}
pub fn k_nat_vrf() {
    both()
}

/// Closed terms: every constant against its derivation or its other statements.
pub fn consts() {
    use ephemeral_vrf_api::prelude as a;
    use ephemeral_vrf_sdk::consts as s;
    let id = ephemeral_vrf_api::ID;
    let (k, b) = solana_program::pubkey::Pubkey::find_program_address(&[b"identity"], &id);
    check!(a::IDENTITY == b"identity" && s::IDENTITY == a::IDENTITY, "P16: the identity seed agrees");
    check!(a::program_identity_pda() == (k, b), "P16: the identity address and bump equal their derivation");
    check!(s::VRF_PROGRAM_IDENTITY.to_bytes() == k.to_bytes(), "P16: the SDK's identity address equals its derivation");
    check!(s::VRF_PROGRAM_ID.to_bytes() == id.to_bytes() && ephemeral_vrf_sdk::id().to_bytes() == id.to_bytes(), "P16: the program id agrees");
    check!(s::DEFAULT_EPHEMERAL_QUEUE.to_bytes() == a::DEFAULT_EPHEMERAL_QUEUE.to_bytes(), "P16: the default ephemeral queue agrees");
    check!(a::RISTRETTO_BASEPOINT_POINT.0 == G.compress().to_bytes(), "P16: the base point agrees");
    check!(a::MAGIC_PROGRAM_ID.to_bytes() == ephemeral_rollups_sdk::consts::MAGIC_PROGRAM_ID.to_bytes(), "P16: the magic program address agrees");
    check!(a::MAGIC_CONTEXT_ID.to_bytes() == ephemeral_rollups_sdk::consts::MAGIC_CONTEXT_ID.to_bytes(), "P16: the magic context address agrees");
    check!(ephemeral_vrf_sdk::compat::slot_hashes::ID.to_bytes() == solana_program::sysvar::slot_hashes::ID.to_bytes(), "P16: the slot hashes address agrees");
    check!(a::VRF_PREFIX_HASH_TO_POINT == TO_POINT && a::VRF_PREFIX_HASH_TO_SCALAR == TO_SCALAR && a::VRF_PREFIX_CHALLENGE == CHALLENGE, "P16: the domain prefixes agree");
    honest_as("P16: prover and verifiers use the same prefixes and base point");
}
fn honest_as(m: &'static str) {
    let sk = Scalar::from(77u64);
    let input = [5u8; 32];
    let (out, (cb, ch, s)) = compute_vrf(sk, &input);
    check!(out == (sk * (h2(TO_POINT, &input) * G)).compress(), m);
    let p = [out.to_bytes(), cb.to_bytes(), ch.to_bytes()];
    let pk = sk * G;
    let c = chal(&pk.compress().to_bytes(), &input, &p);
    check!(s * G == cb.decompress().unwrap() + c * pk, m);
    check!(verify_vrf(pk, &input, out, (cb, ch, s)), m);
    check!(ephemeral_vrf_api::verify::verify_vrf(&Pt(pk.compress().to_bytes()), &input, &Pt(p[0]), (&Pt(p[1]), &Pt(p[2]), &Sc(s.to_bytes()))), m);
}
pub fn k_nat_const() {
    consts()
}
