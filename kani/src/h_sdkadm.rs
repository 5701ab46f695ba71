//! Contracts of the administrative client builders.
use crate::nd::*;
use crate::world::*;
use crate::{check, reach};
use ephemeral_vrf_api::sdk;
use solana_curve25519::ristretto::PodRistrettoPoint;
use solana_curve25519::scalar::PodScalar;

const LOADER: Pubkey = solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111");
const DLP: Pubkey = solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
const ME: Pubkey = ephemeral_vrf_api::ID;

fn has(ix: &Instruction, i: usize, k: &Pubkey, s: bool, w: bool) -> bool {
    ix.accounts[i].pubkey == *k && ix.accounts[i].is_signer == s && ix.accounts[i].is_writable == w
}
fn tag(ix: &Instruction, t: u8, len: usize) -> bool {
    ix.program_id == ME && ix.data.len() == 8 + len && ix.data[0] == t && ix.data[1..8] == [0; 7]
}
struct K {
    signer: Pubkey,
    ident: Pubkey,
    key: [u8; 32],
    od: Pubkey,
    reg: Pubkey,
    pd: Pubkey,
    q: Pubkey,
    index: u8,
}
fn keys() -> K {
    let signer = any_key();
    let ident = any_key();
    let key: [u8; 32] = any();
    let index: u8 = any();
    let pdas: [[u8; 32]; 4] = any();
    let od = reg_pda(&[b"oracle", ident.as_ref()], &ME, &pdas[0], 0).0;
    let reg = reg_pda(&[b"oracles"], &ME, &pdas[1], 0).0;
    let pd = reg_pda(&[ME.as_ref()], &LOADER, &pdas[2], 0).0;
    let q = reg_pda(&[b"queue", ident.as_ref(), &[index]], &ME, &pdas[3], 0).0;
    K { signer, ident, key, od, reg, pd, q, index }
}
const SYS: Pubkey = Pubkey::new_from_array([0; 32]);

pub fn registry() {
    let k = keys();
    let ix = sdk::initialize(k.signer);
    check!(tag(&ix, 0, 0) && ix.accounts.len() == 3, "P13: initialize: tag, payload, account count");
    check!(has(&ix, 0, &k.signer, true, true) && has(&ix, 1, &k.reg, false, true) && has(&ix, 2, &SYS, false, false), "P13: initialize: accounts");
    check!(Initialize::try_from_bytes(&ix.data[8..]).is_ok(), "P13: initialize: decodes");
    let mut op = 0;
    while op < 2 {
        let ix = if op == 0 { sdk::add_oracle(k.signer, k.ident, k.key) } else { sdk::remove_oracle(k.signer, k.ident) };
        reach!(op == 1, "built");
        check!(tag(&ix, 1, 65) && ix.accounts.len() == 5, "P13: add/remove oracle: tag, payload, account count");
        check!(
            has(&ix, 0, &k.signer, true, true) && has(&ix, 1, &k.reg, false, true) && has(&ix, 2, &k.od, false, true) && has(&ix, 3, &k.pd, false, false) && has(&ix, 4, &SYS, false, false),
            "P13: add/remove oracle: accounts"
        );
        match ModifyOracle::try_from_bytes(&ix.data[8..]) {
            Ok(m) => check!(m.identity == k.ident && m.operation == op && (op == 1 || m.oracle_pubkey.0 == k.key), "P13: add/remove oracle: decodes to the given parameters"),
            Err(_) => check!(false, "P13: add/remove oracle: decodes"),
        }
        op += 1;
    }
}
/// SIZE: requested size; 0: none given (the default of 9500 bytes)
pub fn queues<const SIZE: u32>() {
    let k = keys();
    let n = if SIZE > 0 { SIZE } else { 9500 };
    let ixs = sdk::initialize_oracle_queue(k.signer, k.ident, k.index, if SIZE > 0 { Some(SIZE) } else { None });
    let want = (n as usize + 10239) / 10240;
    reach!(ixs.len() == want, "built");
    check!(ixs.len() == want, "P11 P13: exactly as many open instructions as the size needs");
    let mut i = 0;
    while i < ixs.len() {
        let ix = &ixs[i];
        check!(tag(ix, 2, 8) && ix.accounts.len() == 5, "P13: open queue: tag, payload, account count");
        check!(
            has(ix, 0, &k.signer, true, true) && has(ix, 1, &k.ident, true, false) && has(ix, 2, &k.od, false, true) && has(ix, 3, &k.q, false, true) && has(ix, 4, &SYS, false, false),
            "P13: open queue: accounts"
        );
        match InitializeOracleQueue::try_from_bytes(&ix.data[8..]) {
            Ok(m) => check!(m.index == k.index && m.target_size == n, "P13: open queue: decodes to the given parameters"),
            Err(_) => check!(false, "P13: open queue: decodes"),
        }
        i += 1;
    }
}
pub fn closing() {
    let k = keys();
    let ix = sdk::close_oracle_queue(k.ident, k.index);
    check!(tag(&ix, 7, 1) && ix.accounts.len() == 3, "P13: close queue: tag, payload, account count");
    check!(has(&ix, 0, &k.ident, true, true) && has(&ix, 1, &k.od, false, true) && has(&ix, 2, &k.q, false, true), "P13: close queue: accounts");
    check!(CloseOracleQueue::try_from_bytes(&ix.data[8..]).map(|m| m.index) == Ok(k.index), "P13: close queue: decodes to the given index");
    let ix = sdk::purge_expired_requests(k.ident, k.index);
    check!(tag(&ix, 9, 1) && ix.accounts.len() == 2, "P13: purge: tag, payload, account count");
    check!(has(&ix, 0, &k.ident, false, true) && has(&ix, 1, &k.q, false, true), "P13: purge: accounts");
    check!(PurgeExpiredRequests::try_from_bytes(&ix.data[8..]).map(|m| m.index) == Ok(k.index), "P13: purge: decodes to the given index");
    let ix = sdk::undelegate_oracle_queue(k.signer, k.q, k.index);
    reach!(ix.accounts.len() == 4, "built");
    check!(tag(&ix, 6, 1) && ix.accounts.len() == 4, "P13: undelegate: tag, payload, account count");
    check!(
        has(&ix, 0, &k.signer, true, true) && has(&ix, 1, &k.q, false, true) && has(&ix, 2, &MAGIC_CONTEXT_ID, false, true) && has(&ix, 3, &MAGIC_PROGRAM_ID, false, false),
        "P13: undelegate: accounts"
    );
    check!(UndelegateOracleQueue::try_from_bytes(&ix.data[8..]).map(|m| m.index) == Ok(k.index), "P13: undelegate: decodes to the given index");
}
pub fn delegating() {
    let signer = any_key();
    let queue = any_key();
    let index: u8 = any();
    let pdas: [[u8; 32]; 3] = any();
    let buf = reg_pda(&[b"buffer", queue.as_ref()], &ME, &pdas[0], 0).0;
    let rec = reg_pda(&[b"delegation", queue.as_ref()], &DLP, &pdas[1], 0).0;
    let meta = reg_pda(&[b"delegation-metadata", queue.as_ref()], &DLP, &pdas[2], 0).0;
    let ix = sdk::delegate_oracle_queue(signer, queue, index);
    reach!(ix.accounts.len() == 8, "built");
    check!(tag(&ix, 5, 1) && ix.accounts.len() == 8, "P13: delegate: tag, payload, account count");
    check!(has(&ix, 0, &signer, true, true) && has(&ix, 1, &queue, false, true), "P13: delegate: authority and queue");
    check!(has(&ix, 2, &buf, false, true) && has(&ix, 3, &rec, false, true) && has(&ix, 4, &meta, false, true), "P13: delegate: buffer, record and metadata");
    check!(has(&ix, 5, &DLP, false, false) && has(&ix, 6, &ME, false, false) && has(&ix, 7, &SYS, false, false), "P13: delegate: programs");
    check!(DelegateOracleQueue::try_from_bytes(&ix.data[8..]).map(|m| m.index) == Ok(index), "P13: delegate: decodes to the given index");
}
pub fn providing() {
    let oracle = any_key();
    let queue = any_key();
    let program = any_key();
    let seed: [u8; 32] = any();
    let p: [[u8; 32]; 4] = any();
    let pda: [u8; 32] = any();
    let od = reg_pda(&[b"oracle", oracle.as_ref()], &ME, &pda, 0).0;
    let ix = sdk::provide_randomness(oracle, queue, program, seed, PodRistrettoPoint(p[0]), PodRistrettoPoint(p[1]), PodRistrettoPoint(p[2]), PodScalar(p[3]));
    reach!(ix.accounts.len() == 5, "built");
    check!(tag(&ix, 4, 160) && ix.accounts.len() == 5, "P13: provide: tag, payload, account count");
    check!(
        has(&ix, 0, &oracle, true, true) && has(&ix, 1, &program_identity_pda().0, false, false) && has(&ix, 2, &od, false, false) && has(&ix, 3, &queue, false, true) && has(&ix, 4, &program, false, false),
        "P13: provide: accounts"
    );
    match ProvideRandomness::try_from_bytes(&ix.data[8..]) {
        Ok(m) => check!(
            m.input == seed && m.output.0 == p[0] && m.commitment_base_compressed.0 == p[1] && m.commitment_hash_compressed.0 == p[2] && m.scalar.0 == p[3],
            "P13: provide: decodes to the given parameters"
        ),
        Err(_) => check!(false, "P13: provide: decodes"),
    }
}
#[cfg(kani)]
pub fn no_print(_a: core::fmt::Arguments<'_>) {}
#[cfg(kani)]
pub struct Dp;
#[cfg(kani)]
impl Dp {
    pub fn fmt(_k: &Pubkey, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
macro_rules! adm {
    ($h:ident, $f:path) => {
        world_proof! {
            #[kani::stub(std::io::_print, no_print)]
            #[kani::stub(<solana_address::Address as core::fmt::Display>::fmt, Dp::fmt)]
            #[kani::unwind(200)]
            $h = $f
        }
    };
}
adm!(k_adm_registry, registry);
adm!(k_adm_queues_default, queues::<0>);
adm!(k_adm_queues_small, queues::<1>);
adm!(k_adm_queues_10240, queues::<10240>);
adm!(k_adm_queues_10241, queues::<10241>);
adm!(k_adm_queues_20481, queues::<20481>);
adm!(k_adm_closing, closing);
adm!(k_adm_delegating, delegating);
adm!(k_adm_providing, providing);
