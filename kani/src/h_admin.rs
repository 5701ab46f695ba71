//! Contracts of the administrative instructions.
use crate::nd::*;
use crate::world::*;
use crate::{check, reach};

const LOADER: Pubkey = solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111");

/// OP 0 add, 1 remove, other: refused.  N registered oracles; HIT: index of the
/// identity in the registry (N: not in it).  T: registry buffer.  PRE: oracle
/// account: 0 absent, 1 prefunded, 2 exists
pub fn modify<const OP: u8, const N: usize, const HIT: usize, const T: usize, const PRE: u8, const RD: u8>() {
    let keys: [[u8; 32]; 4] = any();
    let pdas: [[u8; 32]; 3] = any();
    let bumps: [u8; 3] = any();
    let flags: [bool; 8] = any();
    let mut lam: [u64; 3] = lamports();
    if OP == 0 {
        // concrete: keeps the two ways of funding the registry apart
        lam[1] = if N == 1 { min_balance(12 + 32 * N) } else { 1 << 40 };
    }
    let admin: [u8; 32] = any();
    let ident_any: [u8; 32] = any();
    let vrf_pk: [u8; 32] = any();
    let odata: [u8; 48] = any();
    let pd_slot: u64 = any();
    let rdisc = RD; // concrete: keeps the decoded list concrete
    let curve_ok: bool = any();
    unsafe {
        SLOT = any();
        CPI_FAILS = !any::<bool>();
        ON_CPI = Some(sys_effects);
    }
    let slot = unsafe { SLOT };
    // registered identities are concrete and distinct; identity to remove too
    let reg = |i: usize| [0x10 + i as u8; 32];
    let ident = if OP == 1 { reg(HIT) } else { ident_any };
    #[cfg(kani)]
    unsafe {
        stubs::CURVE_KEY = ident;
        stubs::CURVE_OK = curve_ok;
        stubs::RESIZE_TO = 12 + 32 * (N + (OP == 0) as usize - (OP == 1 && HIT < N) as usize);
    }
    #[cfg(not(kani))]
    let curve_ok = {
        let _ = curve_ok;
        solana_curve25519::edwards::validate_edwards(&solana_curve25519::edwards::PodEdwardsPoint(ident))
    };
    let (r_pda, _) = reg_pda(&[b"oracles"], &ephemeral_vrf_api::ID, &pdas[0], bumps[0]);
    let (o_pda, obump) = reg_pda(&[b"oracle", &ident], &ephemeral_vrf_api::ID, &pdas[1], bumps[1]);
    let (p_pda, _) = reg_pda(&[ephemeral_vrf_api::ID.as_ref()], &LOADER, &pdas[2], bumps[2]);
    let sk = if flags[0] { Pubkey::new_from_array(admin) } else { Pubkey::new_from_array(keys[0]) };
    let mut sb = Buf::<H>::new(sk, Pubkey::default(), lam[0]);
    let signer = acct(sb.raw(), 0, flags[1], true);
    let rk = if flags[2] { r_pda } else { Pubkey::new_from_array(keys[1]) };
    let mut rb = Buf::<T>::new(rk, ephemeral_vrf_api::ID, lam[1]);
    rb.data()[0] = rdisc;
    rb.data()[8] = N as u8;
    let mut i = 0;
    while i < N {
        rb.data()[12 + 32 * i..44 + 32 * i].copy_from_slice(&reg(i));
        i += 1;
    }
    let registry = acct(rb.raw(), 12 + 32 * N, false, flags[3]);
    let ok = if flags[4] { o_pda } else { Pubkey::new_from_array(keys[2]) };
    let exists = PRE == 2;
    let mut ob = Buf::<{ H + 56 }>::new(ok, if exists { ephemeral_vrf_api::ID } else { Pubkey::default() }, if PRE == 0 { 0 } else { lam[2] });
    if exists {
        ob.data()[0] = odata[0];
        ob.data()[8..].copy_from_slice(&odata);
    }
    let oracle = acct(ob.raw(), if exists { 56 } else { 0 }, false, flags[5]);
    let pk = if flags[6] { p_pda } else { Pubkey::new_from_array(keys[3]) };
    let mut pb = Buf::<{ H + 45 }>::new(pk, LOADER, 1);
    pb.data()[0] = 3;
    pb.data()[4..12].copy_from_slice(&pd_slot.to_le_bytes());
    pb.data()[12] = 1;
    pb.data()[13..45].copy_from_slice(&admin);
    let program_data = acct(pb.raw(), 45, false, false);
    let mut yb = Buf::<H>::new(Pubkey::default(), Pubkey::default(), 1);
    let sys = acct(yb.raw(), 0, false, false);
    let mut data = [0u8; 73];
    data[0] = 1;
    data[8..40].copy_from_slice(&ident);
    data[40..72].copy_from_slice(&vrf_pk);
    data[72] = OP;
    let accounts = [signer, registry, oracle, program_data, sys];
    let (l0, l1, l2) = (lam[0], lam[1], if PRE == 0 { 0 } else { lam[2] });
    let r = run_ix(&accounts, &data);

    let auth = flags[1] && sk.to_bytes() == admin && pk == p_pda;
    let valid = ident != [0; 32] && curve_ok;
    let addr = rk == r_pda && ok == o_pda && flags[3] && flags[5];
    let typed = rdisc == 0;
    let total = |a: u64, b: u64, c: u64| a as u128 + b as u128 + c as u128;
    let sum = total(l0, l1, l2);
    let rich = sum < u64::MAX as u128 / 2 && l0 > 100_000_000;
    let d = unsafe { core::slice::from_raw_parts((rb.raw() as *const u8).add(H), T - H) };
    let o = unsafe { core::slice::from_raw_parts((ob.raw() as *const u8).add(H), 56) };
    let closable = odata[0] == 1 && odata[40..48] == [0; 8];
    if RD == 0 && (OP == 0 && !exists || OP == 1 && exists) {
        reach!(r.is_ok(), "modified");
    } else {
        reach!(r.is_err(), "refused");
    }
    if r.is_ok() {
        check!(auth, "P10: only the upgrade authority, from the genuine program data");
        check!(valid, "P10: only valid curve points other than the system address");
        check!(addr, "P10: only the registry and the oracle's own account");
        check!(typed, "P10 P15: only the genuine registry");
        check!(OP < 2, "P10: unknown operations are refused");
        check!(accounts[0].lamports() as u128 + accounts[1].lamports() as u128 + accounts[2].lamports() as u128 == sum, "P08 P10: lamports are conserved");
        if OP == 0 {
            check!(!exists, "P10: an existing oracle is not overwritten");
            check!(accounts[1].data_len() == 12 + 32 * (N + 1) && d[..8] == [0; 8] && d[8] == N as u8 + 1 && d[9..12] == [0; 3], "P10: registry grows by one");
            let mut i = 0;
            while i < N {
                check!(d[12 + 32 * i..44 + 32 * i] == reg(i), "P10: other oracles stay registered");
                i += 1;
            }
            check!(d[12 + 32 * N..44 + 32 * N] == ident, "P10: the identity is registered");
            check!(accounts[2].data_len() == 56 && *accounts[2].owner == ephemeral_vrf_api::ID, "P10: oracle account created");
            check!(o[0] == 1 && o[1..8] == [0; 7] && o[8..40] == vrf_pk && o[40..48] == slot.to_le_bytes() && o[48..56] == [0; 8], "P10: VRF key and registration slot");
            check!(accounts[2].lamports() >= min_balance(56), "P10: oracle account is rent exempt");
            let _ = obump;
        } else {
            check!(exists && closable, "P10: removal is refused while queues are open");
            let m = if HIT < N { N - 1 } else { N };
            check!(accounts[1].data_len() == 12 + 32 * m && d[..8] == [0; 8] && d[8] == m as u8 && d[9..12] == [0; 3], "P10: registry shrinks by the removed identity");
            #[cfg(not(kani))]
            for i in (0..N).filter(|i| *i != HIT) {
                check!((0..m).filter(|j| d[12 + 32 * j..44 + 32 * j] == reg(i)).count() == 1, "P10: other oracles stay registered");
            }
            #[cfg(kani)]
            {
            let mut i = 0;
            let mut j = 0;
            while i < N {
                if i != HIT {
                    check!(d[12 + 32 * j..44 + 32 * j] == reg(i), "P10: other oracles stay registered");
                    j += 1;
                }
                i += 1;
            }
            }
            check!(accounts[2].data_len() == 0 && accounts[2].lamports() == 0 && *accounts[2].owner == Pubkey::default(), "P10: oracle account closed");
        }
    } else {
        let doable = if OP == 0 { !exists } else { OP == 1 && exists && closable };
        check!(!(auth && valid && addr && typed && doable && rich && unsafe { !CPI_FAILS }), "P10: the authority's change is accepted");
    }
}
macro_rules! modi {
    ($h:ident, $f:ident, $op:expr, $n:expr, $hit:expr, $pre:expr, $rd:expr) => {
        pub fn $f() {
            modify::<$op, $n, $hit, { H + 12 + 32 * ($n + 1) }, $pre, $rd>()
        }
        world_proof! {
            #[kani::unwind(800)]
            $h = $f
        }
    };
}
modi!(k_add_1, add_1, 0, 1, 9, 0, 0);
modi!(k_add_2_pre, add_2_pre, 0, 2, 9, 1, 0);
modi!(k_add_dup, add_dup, 0, 1, 9, 2, 0);
modi!(k_rem_2, rem_2, 1, 2, 0, 2, 0);
modi!(k_rem_last, rem_last, 1, 1, 0, 2, 0);
modi!(k_rem_none, rem_none, 1, 2, 5, 2, 0);
modi!(k_add_disc, add_disc, 0, 1, 9, 0, 3);
modi!(k_rem_disc, rem_disc, 1, 1, 0, 2, 1);
modi!(k_mod_op2, mod_op2, 2, 1, 0, 2, 0);
// larger registries, native only
#[cfg(not(kani))]
modi!(k_add_5, add_5, 0, 5, 9, 0, 0);
#[cfg(not(kani))]
modi!(k_add_40, add_40, 0, 40, 99, 0, 0);
#[cfg(not(kani))]
modi!(k_rem_5a, rem_5a, 1, 5, 1, 2, 0);
#[cfg(not(kani))]
modi!(k_rem_5b, rem_5b, 1, 5, 2, 2, 0);
#[cfg(not(kani))]
modi!(k_rem_40, rem_40, 1, 40, 21, 2, 0);

/// LEN: current registry size
pub fn init<const LEN: usize, const PREFUND: bool>() {
    let keys: [[u8; 32]; 2] = any();
    let pda: [u8; 32] = any();
    let bump: u8 = any();
    let flags: [bool; 3] = any();
    let lam: [u64; 2] = lamports();
    let old: [u8; 12] = any();
    unsafe {
        CPI_FAILS = !any::<bool>();
        ON_CPI = Some(sys_effects);
    }
    let (r_pda, bump) = reg_pda(&[b"oracles"], &ephemeral_vrf_api::ID, &pda, bump);
    let mut sb = Buf::<H>::new(Pubkey::new_from_array(keys[0]), Pubkey::default(), lam[0]);
    let signer = acct(sb.raw(), 0, flags[0], true);
    let rk = if flags[1] { r_pda } else { Pubkey::new_from_array(keys[1]) };
    let mut rb = Buf::<{ H + 12 }>::new(rk, if LEN > 0 { ephemeral_vrf_api::ID } else { Pubkey::default() }, if PREFUND { lam[1] } else { 0 });
    if LEN > 0 {
        rb.data().copy_from_slice(&old);
    }
    let registry = acct(rb.raw(), LEN, false, flags[2]);
    let mut yb = Buf::<H>::new(Pubkey::default(), Pubkey::default(), 1);
    let sys = acct(yb.raw(), 0, false, false);
    let accounts = [signer, registry, sys];
    let data = [0u8; 8];
    let l1 = if PREFUND { lam[1] } else { 0 };
    let sum = lam[0] as u128 + l1 as u128;
    let r = run_ix(&accounts, &data);
    let d = unsafe { core::slice::from_raw_parts((rb.raw() as *const u8).add(H), 12) };
    let rich = sum < u64::MAX as u128 / 2 && lam[0] > 100_000_000;
    let auth = flags[0] && flags[2] && rk == r_pda;
    if LEN == 0 {
        reach!(r.is_ok(), "initialised");
    } else {
        reach!(r.is_err(), "refused");
    }
    if r.is_ok() {
        check!(LEN == 0, "P10: the registry is initialised only once");
        check!(auth, "P10: signed, at the registry address");
        check!(accounts[1].data_len() == 12 && *d == [0; 12] && *accounts[1].owner == ephemeral_vrf_api::ID, "P10 P15: empty registry");
        check!(accounts[0].lamports() as u128 + accounts[1].lamports() as u128 == sum, "P08 P10: lamports are conserved");
        let c = &cpis()[cpis().len() - 1];
        check!(c.nsigners == 1 && c.seeds.len() == 8 && c.seeds[..7] == *b"oracles" && c.seeds[7] == bump, "P10: created with the registry seeds");
    } else {
        check!(!(LEN == 0 && auth && rich && unsafe { !CPI_FAILS }), "P10: initialisation succeeds");
    }
}
pub fn init_0() {
    init::<0, false>()
}
pub fn init_pre() {
    init::<0, true>()
}
pub fn init_12() {
    init::<12, true>()
}
world_proof! { #[kani::unwind(800)] k_init_0 = init_0 }
world_proof! { #[kani::unwind(800)] k_init_pre = init_pre }
world_proof! { #[kani::unwind(800)] k_init_12 = init_12 }
