//! Contracts of opening and closing a queue.
use crate::nd::*;
use crate::world::*;
use crate::{check, reach};

const MAX_EXTRA: usize = 10_240;
/// Bytes behind an account: under Kani only those that instructions here touch.
pub const fn cap(n: usize) -> usize {
    H + if cfg!(kani) && n > 40 { 40 } else { n }
}

/// LEN: current length of the queue account, TARGET: requested size, PRE: lamports
/// already on an account that does not exist, OWN: owner of the queue account
/// (0 nobody, 1 the program, 2 some other program), SYM: arbitrary old contents,
/// TYP: the oracle's data: 0 genuine, 1 of another program, 2 genuine
/// but not writable, else another type
pub fn open<const LEN: usize, const TARGET: usize, const T: usize, const PRE: bool, const OWN: u8, const SYM: bool, const TYP: u8>() {
    let keys: [[u8; 32]; 4] = any();
    let pdas: [[u8; 32]; 2] = any();
    let bumps: [u8; 2] = any();
    let flags: [bool; 8] = any();
    let mut lam: [u64; 2] = lamports();
    let odata: [u8; 48] = any();
    // concrete: keeps the borrow of the oracle's data concrete
    let odisc = if TYP < 3 { 1 } else { TYP };
    let wr = TYP != 2;
    let old: [u8; 20] = any();
    let index: u8 = any();
    unsafe {
        SLOT = any();
        CPI_FAILS = !any::<bool>();
        ON_CPI = Some(sys_effects);
    }
    let slot = unsafe { SLOT };
    let partial = TARGET > LEN + MAX_EXTRA;
    let goal = if partial { LEN + MAX_EXTRA } else { TARGET };
    #[cfg(kani)]
    unsafe {
        stubs::RESIZE_TO = goal;
    }
    let ok = Pubkey::new_from_array(keys[0]);
    let (d_pda, _) = reg_pda(&[b"oracle", &keys[0]], &ephemeral_vrf_api::ID, &pdas[0], bumps[0]);
    let (q_pda, qbump) = reg_pda(&[b"queue", &keys[0], &[index]], &ephemeral_vrf_api::ID, &pdas[1], bumps[1]);
    let mut pb = Buf::<H>::new(Pubkey::new_from_array(keys[1]), Pubkey::default(), lam[0]);
    let payer = acct(pb.raw(), 0, flags[0], true);
    let mut ob = Buf::<H>::new(ok, Pubkey::default(), 5);
    let oracle = acct(ob.raw(), 0, flags[1], flags[2]);
    let dk = if flags[3] { d_pda } else { Pubkey::new_from_array(keys[2]) };
    let mut db = Buf::<{ H + 56 }>::new(dk, if TYP != 1 { ephemeral_vrf_api::ID } else { Pubkey::new_from_array([7; 32]) }, 9);
    db.data()[0] = odisc;
    db.data()[8..].copy_from_slice(&odata);
    let odat = acct(db.raw(), 56, false, wr);
    let qk = if flags[6] { q_pda } else { Pubkey::new_from_array(keys[3]) };
    let qowner = [Pubkey::default(), ephemeral_vrf_api::ID, Pubkey::new_from_array([9; 32])][OWN as usize];
    if OWN == 1 {
        // concrete: keeps paying in and paying out apart
        lam[1] = if PRE { 1 << 50 } else { min_balance(LEN) };
    } else if !PRE {
        lam[1] = 0;
    } else {
        // concrete: keeps the number of calls concrete
        lam[1] = 1;
    }
    let mut qb = Buf::<T>::new(qk, qowner, lam[1]);
    if SYM {
        let n = if LEN < 20 { LEN } else { 20 };
        qb.data()[..n].copy_from_slice(&old[..n]);
    }
    let queue = acct(qb.raw(), LEN, false, flags[7]);
    let mut yb = Buf::<H>::new(Pubkey::default(), Pubkey::default(), 1);
    let sys = acct(yb.raw(), 0, false, false);
    let accounts = [payer, oracle, odat, queue, sys];
    let mut data = [0u8; 16];
    data[0] = 2;
    data[8..12].copy_from_slice(&(TARGET as u32).to_le_bytes());
    data[12] = index;
    let sum = lam[0] as u128 + lam[1] as u128;
    let r = run_ix(&accounts, &data);

    let num = |b: &[u8]| {
        let mut x = [0u8; 8];
        x.copy_from_slice(b);
        u64::from_le_bytes(x)
    };
    let reg_slot = num(&odata[32..40]);
    let was = num(&odata[40..48]);
    let auth = flags[0] && flags[1];
    let addr = dk == d_pda && qk == q_pda && flags[7];
    let typed = TYP == 0 || TYP == 2;
    let aged = slot >= reg_slot && slot - reg_slot >= 200;
    let zeroed = !SYM || {
        let n = if LEN < 20 { LEN } else { 20 };
        old[..n] == [0u8; 20][..n]
    };
    let d = unsafe { core::slice::from_raw_parts((qb.raw() as *const u8).add(H), if LEN > 20 { LEN } else { 20 }) };
    let o = unsafe { core::slice::from_raw_parts((db.raw() as *const u8).add(H), 56) };
    let rich = sum < u64::MAX as u128 / 2 && lam[0] > 1_000_000_000;
    if OWN < 2 && TYP == 0 && (TARGET >= 20 || partial) {
        reach!(r.is_ok(), "opened");
    } else {
        reach!(r.is_err(), "refused");
    }
    if r.is_ok() {
        check!(auth, "P11: the oracle and the payer sign");
        check!(addr, "P11: only the oracle's own accounts");
        check!(typed, "P11 P15: only a registered oracle's data");
        check!(aged, "P11: registered for 200 slots");
        check!(zeroed, "P11: never over an initialised queue");
        check!(OWN < 2, "P11: only a fresh account or the program's own");
        check!(partial || TARGET >= 20, "P11: a queue has room for its header");
        check!(accounts[3].data_len() == goal, "P11: grows by at most 10240 bytes towards the requested size");
        check!(*accounts[3].owner == ephemeral_vrf_api::ID, "P11: the program owns the queue");
        check!(accounts[3].lamports() >= min_balance(goal), "P11: the queue is rent exempt");
        check!(accounts[0].lamports() as u128 + accounts[3].lamports() as u128 == sum, "P08 P11: lamports are conserved");
        if partial {
            check!(*d == [0u8; 20] && o[48..56] == odata[40..48], "P11: a partly allocated queue is neither initialised nor counted");
        } else {
            check!(wr, "P11: the oracle's data is writable");
            check!(d[0] == 3 && d[1..8] == [0; 7], "P11: the account is a queue");
            check!(d[8..12] == [0; 4] && d[13..16] == [0; 3] && d[12] <= 16 && d[16] == index && d[17..20] == [0; 3], "P11: an empty queue with the requested index");
            check!(num(&o[48..56]) == was.saturating_add(1), "P11: the queue is counted on the oracle");
        }
        check!(o[0] == 1 && o[1..8] == [0; 7] && o[8..48] == odata[..40], "P11: the oracle's data is otherwise unchanged");
        if OWN == 0 {
            let c = &cpis()[cpis().len() - 1];
            check!(c.nsigners == 1 && c.seeds.len() == 39 && c.seeds[..5] == *b"queue" && c.seeds[5..37] == keys[0] && c.seeds[37] == index && c.seeds[38] == qbump, "P11: created with the queue's seeds");
        }
    } else {
        let doable = OWN < 2 && (partial || (TARGET >= 20 && wr));
        check!(!(auth && addr && typed && aged && zeroed && doable && rich && unsafe { !CPI_FAILS }), "P11: the oracle's queue opens");
    }
}
macro_rules! opn {
    ($h:ident, $f:ident, $len:expr, $tgt:expr, $cap:expr, $pre:expr, $own:expr, $sym:expr, $typ:expr) => {
        pub fn $f() {
            open::<$len, $tgt, { cap($cap) }, $pre, $own, $sym, $typ>()
        }
        world_proof! {
            #[kani::unwind(800)]
            $h = $f
        }
    };
}
opn!(k_open_new, open_new, 0, 36, 36, false, 0, false, 0);
opn!(k_open_pre, open_pre, 0, 36, 36, true, 0, false, 0);
opn!(k_open_small, open_small, 0, 19, 36, false, 0, false, 0);
opn!(k_open_10240, open_10240, 0, 10240, 10240, false, 0, false, 0);
opn!(k_open_10241, open_10241, 0, 10241, 10240, false, 0, false, 0);
opn!(k_open_full, open_full, 36, 36, 36, false, 1, true, 0);
opn!(k_open_grow, open_grow, 20, 36, 36, false, 1, true, 0);
opn!(k_open_shrink, open_shrink, 24, 20, 36, true, 1, false, 0);
opn!(k_open_more, open_more, 20, 10261, 10260, false, 1, false, 0);
opn!(k_open_last, open_last, 20, 10260, 10260, false, 1, false, 0);
opn!(k_open_other, open_other, 20, 36, 36, true, 2, false, 0);
opn!(k_open_foreign, open_foreign, 0, 36, 36, false, 0, false, 1);
opn!(k_open_untyped, open_untyped, 0, 36, 36, false, 0, false, 4);
opn!(k_open_fixed, open_fixed, 20, 36, 36, false, 1, true, 2);

/// The oracle and its data, the queue with arbitrary header bytes (DISC: its type)
pub fn close<const LEN: usize, const DISC: u8, const T: usize, const TYP: u8>() {
    let keys: [[u8; 32]; 3] = any();
    let pdas: [[u8; 32]; 2] = any();
    let bumps: [u8; 2] = any();
    let flags: [bool; 8] = any();
    let lam: [u64; 2] = lamports();
    let odata: [u8; 48] = any();
    // concrete: keeps the borrow of the oracle's data concrete
    let odisc = if TYP < 3 { 1 } else { TYP };
    let wr = TYP != 2;
    let old: [u8; 12] = any();
    let index: u8 = any();
    let ok = Pubkey::new_from_array(keys[0]);
    let (d_pda, _) = reg_pda(&[b"oracle", &keys[0]], &ephemeral_vrf_api::ID, &pdas[0], bumps[0]);
    let (q_pda, _) = reg_pda(&[b"queue", &keys[0], &[index]], &ephemeral_vrf_api::ID, &pdas[1], bumps[1]);
    let mut ob = Buf::<H>::new(ok, Pubkey::default(), lam[0]);
    let oracle = acct(ob.raw(), 0, flags[0], true);
    let dk = if flags[1] { d_pda } else { Pubkey::new_from_array(keys[1]) };
    let other = Pubkey::new_from_array([7; 32]);
    let mut db = Buf::<{ H + 56 }>::new(dk, if TYP != 1 { ephemeral_vrf_api::ID } else { other }, 9);
    db.data()[0] = odisc;
    db.data()[8..].copy_from_slice(&odata);
    let odat = acct(db.raw(), 56, false, wr);
    let qk = if flags[4] { q_pda } else { Pubkey::new_from_array(keys[2]) };
    let mut qb = Buf::<T>::new(qk, if flags[5] { ephemeral_vrf_api::ID } else { other }, lam[1]);
    qb.data()[0] = DISC;
    qb.data()[8..20].copy_from_slice(&old);
    let queue = acct(qb.raw(), LEN, false, flags[6]);
    let accounts = [oracle, odat, queue];
    let mut data = [0u8; 9];
    data[0] = 7;
    data[8] = index;
    let r = run_ix(&accounts, &data);
    let o = unsafe { core::slice::from_raw_parts((db.raw() as *const u8).add(H), 56) };
    let num = |b: &[u8]| {
        let mut x = [0u8; 8];
        x.copy_from_slice(b);
        u64::from_le_bytes(x)
    };
    let was = num(&odata[40..48]);
    let auth = flags[0];
    let addr = dk == d_pda && qk == q_pda && wr && flags[6];
    let typed = (TYP == 0 || TYP == 2) && flags[5];
    let empty = old[..4] == [0; 4];
    if TYP == 0 {
        reach!(r.is_ok(), "closed");
    } else {
        reach!(r.is_err(), "refused");
    }
    if r.is_ok() {
        check!(auth, "P11: closing needs the oracle's signature");
        check!(addr, "P11: only the oracle's own accounts");
        check!(typed, "P11 P15: only a registered oracle's data and a queue of the program");
        check!(empty, "P11: a queue with pending requests is not closed");
        let counted = DISC == 3;
        check!(num(&o[48..56]) == if counted { was.saturating_sub(1) } else { was }, "P11: exactly a counted queue is un-counted");
        check!(o[0] == 1 && o[1..8] == [0; 7] && o[8..48] == odata[..40], "P11: the oracle's data is otherwise unchanged");
        check!(accounts[0].lamports() == lam[0] + lam[1] && accounts[2].lamports() == 0, "P08 P11: all lamports return to the oracle");
        check!(accounts[2].data_len() == 0 && *accounts[2].owner == Pubkey::default(), "P11: the account is gone");
    } else {
        check!(!(auth && addr && typed && empty), "P11: an empty queue closes");
    }
    check!(cpis().len() == 0, "P11: closing makes no call");
}
pub fn close_queue() {
    close::<20, 3, { H + 20 }, 0>()
}
pub fn close_part() {
    close::<36, 0, { H + 36 }, 0>()
}
pub fn close_foreign() {
    close::<20, 3, { H + 20 }, 1>()
}
pub fn close_untyped() {
    close::<20, 3, { H + 20 }, 3>()
}
pub fn close_fixed() {
    close::<20, 3, { H + 20 }, 2>()
}
world_proof! { #[kani::unwind(800)] k_close_fixed = close_fixed }
world_proof! { #[kani::unwind(800)] k_close_foreign = close_foreign }
world_proof! { #[kani::unwind(800)] k_close_untyped = close_untyped }
world_proof! { #[kani::unwind(800)] k_close_queue = close_queue }
world_proof! { #[kani::unwind(800)] k_close_part = close_part }
