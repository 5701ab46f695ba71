PROP = 'P02'
NEEDS = 'an oracle that misuses its key: the second commitment is chosen after the challenge'
BREAKS = 'prover and on-chain verifier agree on a challenge without the second commitment, so that a key holder proves any output for an input'
EDITS = [('api/src/verify.rs', """        commitment_hash_compressed.0.to_vec(),
        pk.0""", """        pk.0"""), ('vrf/src/vrf.rs', """        commitment_hash.compress().to_bytes().to_vec(),
""", ''), ('vrf/src/vrf.rs', """        commitment_hash_compressed.to_bytes().to_vec(),
""", '')]
MAIN = r'''
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, Scalar};
use solana_curve25519::{ristretto::PodRistrettoPoint as P, scalar::PodScalar};
fn main() {
    let input = [6u8; 32];
    let h2 = |p: &[u8], m: &[u8]| Scalar::from_bytes_mod_order(solana_program::hash::hashv(&[p, m]).to_bytes());
    let sk = Scalar::from(987654321u64);
    let pk = (sk * G).compress();
    let h = h2(VRF_PREFIX_HASH_TO_POINT, &input) * G;
    let k = Scalar::from(55u64);
    let cb = (k * G).compress();
    // any output other than sk * h, with a challenge over everything but one of the proof's parts
    let out = Scalar::from(4242u64) * G;
    let o = out.compress();
    for skip in 0..2 {
        let mut m: Vec<&[u8]> = vec![VRF_PREFIX_CHALLENGE, o.as_bytes(), cb.as_bytes()];
        let guess = (k * h).compress();
        if skip == 1 {
            m.push(guess.as_bytes());
        }
        m.push(pk.as_bytes());
        m.push(&input);
        let c = h2(VRF_PREFIX_HASH_TO_SCALAR, &solana_program::hash::hashv(&m).to_bytes());
        let s = k + c * sk;
        let ch = (s * h - c * out).compress();
        let ok = ephemeral_vrf_api::verify::verify_vrf(&P(pk.to_bytes()), &input, &P(o.to_bytes()), (&P(cb.to_bytes()), &P(ch.to_bytes()), &PodScalar(s.to_bytes())));
        assert!(!ok, "forged proof accepted");
    }
}
'''
DEMO = open(__file__.rsplit('/', 2)[0] + '/demo.sh').read().replace('curve25519-dalek = "4"', 'curve25519-dalek = "4"\nsolana-curve25519 = "3"')
