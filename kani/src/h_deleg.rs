//! Contracts of delegation and undelegation, through the real delegation SDK
//! code; the delegation program, the magic program and the system program are
//! contracts.
use crate::nd::*;
use crate::world::*;
use crate::{check, reach};

const DLP: Pubkey = solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
const MAGIC: Pubkey = solana_program::pubkey!("Magic11111111111111111111111111111111111111");
const CONTEXT: Pubkey = solana_program::pubkey!("MagicContext1111111111111111111111111111111");
const QL: usize = 24;

/// what the delegation program saw: the buffer's contents, and how often it ran
static mut SEEN: [u8; QL] = [0; QL];
static mut RUNS: usize = 0;
/// the authority, the queue, its index and bump
static mut WHO: ([u8; 32], [u8; 32], u8, u8) = ([0; 32], [0; 32], 0, 0);

fn effects(ix: &Instruction, infos: &[AccountInfo]) -> PResult {
    if ix.program_id == DLP {
        unsafe {
            // looked at when the call is made: the log's length is concrete here
            let c = &cpis()[cpis().len() - 1];
            check!(c.metas.len() >= 3 && c.metas[0].pubkey.to_bytes() == WHO.0 && c.metas[0].is_signer && c.metas[1].pubkey.to_bytes() == WHO.1 && c.metas[1].is_signer && c.metas[2].pubkey == ephemeral_vrf_api::ID, "P12: the oracle's queue is handed over by its owner program");
            check!(c.seeds.len() == 39 && c.seeds[..5] == *b"queue" && c.seeds[5..37] == WHO.0 && c.seeds[37] == WHO.2 && c.seeds[38] == WHO.3 && c.nsigners == 1, "P12: signed with the queue's own seeds");
            RUNS += 1;
            if infos.len() > 3 && infos[3].data_len() == QL {
                SEEN.copy_from_slice(&infos[3].data.borrow());
            }
        }
        return Ok(());
    }
    check!(ix.program_id == Pubkey::default(), "P12: no other program runs");
    sys_effects(ix, infos)
}

/// PK, DK, QK: owner program, delegation program and queue are the genuine ones.
/// Keys other than the authority's are concrete: keeps the runtime's matching of
/// accounts to cross-program calls concrete.
pub fn delegate<const PK: bool, const DK: bool, const QK: bool>() {
    let ak: [u8; 32] = any();
    let pdas = [[0x11; 32], [0x22; 32]];
    let bumps: [u8; 2] = any();
    let flags: [bool; 6] = any();
    let lam: [u64; 2] = lamports();
    let body: [u8; QL] = any();
    let index: u8 = any();
    unsafe {
        CPI_FAILS = !any::<bool>();
        ON_CPI = Some(effects);
        RUNS = 0;
    }
    let (q_pda, qbump) = reg_pda(&[b"queue", &ak, &[index]], &ephemeral_vrf_api::ID, &pdas[0], bumps[0]);
    let authk = ak;
    let ak = Pubkey::new_from_array(ak);
    let mut ab = Buf::<H>::new(ak, Pubkey::default(), lam[0]);
    let authority = acct(ab.raw(), 0, flags[0], true);
    let qk = if QK { q_pda } else { Pubkey::new_from_array([0x66; 32]) };
    let mut qb = Buf::<{ H + QL }>::new(qk, ephemeral_vrf_api::ID, lam[1]);
    qb.data().copy_from_slice(&body);
    let queue = acct(qb.raw(), QL, false, flags[2]);
    let pk = if PK { ephemeral_vrf_api::ID } else { Pubkey::new_from_array([0x44; 32]) };
    // the buffer address belongs to the owner program, whichever it is
    let (b_pda, _) = reg_pda(&[b"buffer", qk.as_ref()], &pk, &pdas[1], bumps[1]);
    let mut bb = Buf::<{ H + QL }>::new(b_pda, Pubkey::default(), 0);
    let buffer = acct(bb.raw(), 0, false, true);
    let mut rb = Buf::<H>::new(Pubkey::new_from_array([0x77; 32]), Pubkey::default(), 0);
    let record = acct(rb.raw(), 0, false, true);
    let mut mb = Buf::<H>::new(Pubkey::new_from_array([0x88; 32]), Pubkey::default(), 0);
    let meta = acct(mb.raw(), 0, false, true);
    let dk = if DK { DLP } else { Pubkey::new_from_array([0x33; 32]) };
    let mut db = Buf::<H>::new(dk, Pubkey::default(), 1);
    let dlp = acct(db.raw(), 0, false, false);
    let mut pb = Buf::<H>::new(pk, Pubkey::default(), 1);
    let owner = acct(pb.raw(), 0, false, false);
    let mut yb = Buf::<H>::new(Pubkey::default(), Pubkey::default(), 1);
    let sys = acct(yb.raw(), 0, false, false);
    let accounts = [authority, queue, buffer, record, meta, dlp, owner, sys];
    unsafe { WHO = (authk, qk.to_bytes(), index, qbump) };
    let mut data = [0u8; 9];
    data[0] = 5;
    data[8] = index;
    let r = run_ix(&accounts, &data);
    if PK && QK {
        reach!(r.is_ok(), "delegated");
    } else {
        reach!(r.is_err(), "refused");
    }
    let auth = flags[0] && qk == q_pda && flags[2] && pk == ephemeral_vrf_api::ID;
    if unsafe { RUNS } > 0 {
        check!(flags[0], "P12: only the oracle delegates its queue");
        check!(qk == q_pda && flags[2], "P12: only the oracle's own queue");
        check!(pk == ephemeral_vrf_api::ID, "P12: only through the genuine owner program");
    }
    if r.is_ok() {
        check!(auth, "P12: only the owning oracle delegates");
        check!(unsafe { RUNS } == 1, "P12: the delegation program runs once");
        check!(unsafe { SEEN } == body, "P12: the queue's contents are handed over");
        check!(*accounts[1].owner == dk, "P12: the queue belongs to the delegation program");
    } else {
        check!(!(auth && dk == DLP && lam[0] > 1_000_000_000 && unsafe { !CPI_FAILS }), "P12: the oracle's delegation succeeds");
    }
}

pub fn undelegate() {
    let keys: [[u8; 32]; 4] = any();
    let pda: [u8; 32] = any();
    let bump: u8 = any();
    let flags: [bool; 5] = any();
    let index: u8 = any();
    unsafe {
        CPI_FAILS = !any::<bool>();
        ON_CPI = None;
    }
    let (q_pda, _) = reg_pda(&[b"queue", &keys[0], &[index]], &ephemeral_vrf_api::ID, &pda, bump);
    let ak = Pubkey::new_from_array(keys[0]);
    let mut ab = Buf::<H>::new(ak, Pubkey::default(), 7);
    let authority = acct(ab.raw(), 0, flags[0], true);
    let qk = if flags[1] { q_pda } else { Pubkey::new_from_array(keys[1]) };
    let mut qb = Buf::<{ H + QL }>::new(qk, ephemeral_vrf_api::ID, 5);
    let queue = acct(qb.raw(), QL, false, flags[2]);
    let ck = if flags[3] { CONTEXT } else { Pubkey::new_from_array(keys[2]) };
    let mut cb = Buf::<H>::new(ck, MAGIC, 1);
    let context = acct(cb.raw(), 0, false, true);
    let mk = if flags[4] { MAGIC } else { Pubkey::new_from_array(keys[3]) };
    let mut mb = Buf::<H>::new(mk, Pubkey::default(), 1);
    let magic = acct(mb.raw(), 0, false, false);
    let accounts = [authority, queue, context, magic];
    let mut data = [0u8; 9];
    data[0] = 6;
    data[8] = index;
    let r = run_ix(&accounts, &data);
    let auth = flags[0] && flags[2] && qk == q_pda && ck == CONTEXT && mk == MAGIC;
    reach!(r.is_ok(), "undelegated");
    if cpis().len() > 0 {
        check!(flags[0], "P12: only the oracle undelegates its queue");
        check!(qk == q_pda && flags[2], "P12: only the oracle's own queue");
        check!(ck == CONTEXT && mk == MAGIC, "P12: only through the genuine commit program and context");
    }
    if r.is_ok() {
        check!(auth, "P12: only the owning oracle undelegates");
        check!(cpis().len() == 1, "P12: one call");
        let c = &cpis()[0];
        check!(c.program == MAGIC && c.nsigners == 0, "P12: the magic program is called");
        check!(c.data.len() == 4 && c.data[0] == 2 && c.data[1..4] == [0; 3], "P12: commit and undelegate is scheduled");
        check!(c.metas.len() == 3 && c.metas[0].pubkey == ak && c.metas[0].is_signer && c.metas[1].pubkey == CONTEXT && c.metas[2].pubkey == qk && c.metas[2].is_writable, "P12: for exactly the oracle's queue");
    } else {
        check!(!(auth && unsafe { !CPI_FAILS }), "P12: the oracle's undelegation succeeds");
    }
}

pub fn restore() {
    let keys: [[u8; 32]; 4] = any();
    let pda: [u8; 32] = any();
    let bump: u8 = any();
    let flags: [bool; 4] = any();
    let lam: [u64; 2] = lamports();
    let body: [u8; QL] = any();
    let index: u8 = any();
    unsafe {
        CPI_FAILS = !any::<bool>();
        ON_CPI = Some(sys_effects);
    }
    let (q_pda, qbump) = reg_pda(&[b"queue", &keys[0], &[index]], &ephemeral_vrf_api::ID, &pda, bump);
    let qk = if flags[0] { q_pda } else { Pubkey::new_from_array(keys[1]) };
    let mut qb = Buf::<{ H + QL }>::new(qk, Pubkey::default(), 0);
    let queue = acct(qb.raw(), 0, false, true);
    let bo = if flags[1] { DLP } else { Pubkey::new_from_array(keys[3]) };
    let mut bb = Buf::<{ H + QL }>::new(Pubkey::new_from_array(keys[2]), bo, lam[1]);
    bb.data().copy_from_slice(&body);
    let buffer = acct(bb.raw(), QL, flags[2], true);
    let mut pb = Buf::<H>::new(Pubkey::new_from_array([3; 32]), Pubkey::default(), lam[0]);
    let payer = acct(pb.raw(), 0, flags[3], true);
    let mut yb = Buf::<H>::new(Pubkey::default(), Pubkey::default(), 1);
    let sys = acct(yb.raw(), 0, false, false);
    let accounts = [queue, buffer, payer, sys];
    let mut data = [0u8; 62];
    data[..8].copy_from_slice(&[196, 28, 41, 206, 48, 37, 51, 167]);
    data[8] = 3;
    data[12] = 5;
    data[16..21].copy_from_slice(b"queue");
    data[21] = 32;
    data[25..57].copy_from_slice(&keys[0]);
    data[57] = 1;
    data[61] = index;
    let r = run_ix(&accounts, &data);
    reach!(r.is_ok(), "restored");
    if r.is_ok() || cpis().len() > 0 {
        check!(flags[2], "P12: restored only from a signed buffer");
        check!(bo == DLP, "P12: restored only from the delegation program's buffer");
    }
    if r.is_ok() {
        check!(accounts[0].data_len() == QL, "P12: the queue has its size again");
        let d = unsafe { core::slice::from_raw_parts((qb.raw() as *const u8).add(H), QL) };
        check!(*d == body, "P12: the queue has the buffer's contents");
        check!(*accounts[0].owner == ephemeral_vrf_api::ID, "P12: the queue belongs to the program again");
        let c = &cpis()[cpis().len() - 1];
        check!(c.nsigners == 1 && c.seeds.len() == 39 && c.seeds[..5] == *b"queue" && c.seeds[5..37] == keys[0] && c.seeds[37] == index && c.seeds[38] == qbump, "P12: restored under the seeds given by the delegation program");
    } else {
        check!(!(flags[2] && bo == DLP && qk == q_pda && lam[0] > 1_000_000_000 && unsafe { !CPI_FAILS }), "P12: restoring succeeds");
    }
    check!(bb.data()[..] == body, "P12: the buffer is only read");
}
pub fn delegate_ok() {
    delegate::<true, true, true>()
}
pub fn delegate_owner() {
    delegate::<false, true, true>()
}
pub fn delegate_program() {
    delegate::<true, false, true>()
}
world_proof! { #[kani::unwind(800)] k_delegate = delegate_ok }
world_proof! { #[kani::unwind(800)] k_delegate_owner = delegate_owner }
pub fn delegate_queue() {
    delegate::<true, true, false>()
}
world_proof! { #[kani::unwind(800)] k_delegate_queue = delegate_queue }
world_proof! { #[kani::unwind(800)] k_delegate_program = delegate_program }
world_proof! { #[kani::unwind(800)] k_undelegate = undelegate }
world_proof! { #[kani::unwind(800)] k_restore = restore }
