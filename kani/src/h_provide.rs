//! Contract of the fulfilment instruction.
use crate::nd::*;
use crate::world::*;
use crate::{check, reach};

/// Ghost queue behind the QueueAccount method contracts.
pub static mut G_ITEM: Option<QueueItem> = None;
pub static mut G_IDX: usize = 0;
pub static mut G_REMOVED: usize = 0;

pub struct Qc<'a>(core::marker::PhantomData<&'a ()>);
impl<'a> Qc<'a> {
    /// contract: the first used item carrying `id`, with its logical index
    pub fn find_some(_q: &QueueAccount<'a>, id: &[u8; 32]) -> Option<(usize, QueueItem)> {
        unsafe {
            let it = G_ITEM.unwrap();
            check!(G_REMOVED == 0 && it.id == *id, "P03: the pending request is looked up by the proven input");
            Some((G_IDX, it))
        }
    }
    /// contract: None when no used item carries `id`
    pub fn find_none(_q: &QueueAccount<'a>, id: &[u8; 32]) -> Option<(usize, QueueItem)> {
        unsafe {
            assume(G_ITEM.unwrap().id != *id);
        }
        None
    }
    /// contract: exactly the item at `index` leaves the queue; its payload stays readable
    pub fn remove_item(q: &mut QueueAccount<'a>, index: usize) -> Result<QueueItem, ProgramError> {
        unsafe {
            check!(index == G_IDX && G_REMOVED == 0, "P04: exactly the requested item is removed");
            G_REMOVED += 1;
            q.header.item_count -= 1;
            let mut it = G_ITEM.unwrap();
            it.used = 0;
            Ok(it)
        }
    }
}

const fn cap(d: usize, m: usize, a: usize) -> usize {
    H + 8 + 16 + 96 + d + 33 * m + a
}

fn on_cpi(_ix: &Instruction, _infos: &[AccountInfo]) -> PResult {
    unsafe { check!(G_REMOVED == 1, "P04: the request leaves the queue before the callback runs") }
    Ok(())
}

pub fn provide<const D: usize, const M: usize, const A: usize, const T: usize, const MODULAR: bool, const FOUND: bool, const OWN: u8>() {
    // ---- draws
    let keys: [[u8; 32]; 4] = any();
    let owners: [[u8; 32]; 3] = any();
    let lam: [u64; 2] = lamports();
    let signer: bool = any();
    let writable: bool = any();
    let roles: [bool; 6] = any();
    let mut odata: [u8; 56] = any_hint([1; 56]);
    let qdisc: [u8; 8] = any_hint([3, 0, 0, 0, 0, 0, 0, 0]);
    let qindex: u8 = any();
    let mut item = QueueItem { slot: any(), id: any(), callback_program_id: any(), priority_request: any(), ..Default::default() };
    let disc: [u8; D] = any();
    let mpk: [[u8; 32]; M] = any();
    let mw: [u8; M] = any();
    let a: [u8; A] = any();
    let mut args: [u8; 160] = any();
    let vrf_ok: bool = any();
    if !MODULAR {
        args[..32].copy_from_slice(&[0xA5; 32]);
    }
    #[cfg(not(kani))]
    let vrf_ok = {
        // natively the drawn verdict is realised by an honest proof, or refuted
        if vrf_ok {
            let mut i = [0u8; 32];
            i.copy_from_slice(&args[..32]);
            let (pk, a) = native::prove(&i);
            odata[8..40].copy_from_slice(&pk);
            args = a;
        }
        let pod = |o: usize| {
            let mut b = [0u8; 32];
            b.copy_from_slice(&args[o..o + 32]);
            solana_curve25519::ristretto::PodRistrettoPoint(b)
        };
        let mut pk = [0u8; 32];
        pk.copy_from_slice(&odata[8..40]);
        ephemeral_vrf_api::verify::verify_vrf(&solana_curve25519::ristretto::PodRistrettoPoint(pk), &pod(0).0, &pod(32), (&pod(64), &pod(96), &solana_curve25519::scalar::PodScalar(pod(128).0)))
    };
    if FOUND {
        item.id.copy_from_slice(&args[..32]);
    }
    let pdas: [[u8; 32]; 2] = any();
    let hout: [u8; 32] = any();
    let count: u32 = any();
    let gidx: usize = any();
    unsafe {
        SLOT = any();
        CPI_FAILS = !any::<bool>();
    }
    // ---- accounts
    let oracle_key = Pubkey::new_from_array(keys[0]);
    let mut ob = Buf::<H>::new(oracle_key, Pubkey::default(), lam[0]);
    let oracle = acct(ob.raw(), 0, signer, true);
    let od_pda = reg_pda(&[b"oracle", oracle_key.as_ref()], &ephemeral_vrf_api::ID, &pdas[0], 0).0;
    let q_pda = reg_pda(&[b"queue", oracle_key.as_ref(), &[qindex]], &ephemeral_vrf_api::ID, &pdas[1], 0).0;
    let rnd = reg_hash(&[&args[32..64]], &hout);
    let idk = if roles[0] { program_identity_pda().0 } else { Pubkey::new_from_array(keys[1]) };
    let mut idb = Buf::<H>::new(idk, Pubkey::default(), 0);
    let idn = acct(idb.raw(), 0, false, false);
    let odk = if roles[1] { od_pda } else { Pubkey::new_from_array(keys[2]) };
    // 0: right owner, 1: system program, 2: differs in the last byte
    let odo = if OWN == 0 {
        ephemeral_vrf_api::ID
    } else if OWN == 1 {
        Pubkey::default()
    } else {
        let mut k = ephemeral_vrf_api::ID.to_bytes();
        k[31] ^= 1;
        Pubkey::new_from_array(k)
    };
    let mut odb = Buf::<{ H + 56 }>::new(odk, odo, 1);
    odb.data().copy_from_slice(&odata);
    let od = acct(odb.raw(), 56, false, false);
    let qk = if roles[3] { q_pda } else { Pubkey::new_from_array(keys[3]) };
    let qo = if roles[4] { ephemeral_vrf_api::ID } else { Pubkey::new_from_array(owners[1]) };
    let mut qb = Buf::<T>::new(qk, qo, lam[1]);
    let mut metas = [CompactAccountMeta::default(); M];
    let mut i = 0;
    while i < M {
        metas[i] = CompactAccountMeta { pubkey: mpk[i], is_writable: mw[i] };
        i += 1;
    }
    qb.data()[..8].copy_from_slice(&qdisc);
    {
        let mut q = QueueAccount::load(&mut qb.data()[8..]).unwrap();
        q.add_item(&item, &disc, &metas, &a).unwrap();
        q.header.index = qindex;
        if MODULAR {
            assume(count >= 1 && gidx < count as usize);
            q.header.item_count = count;
            unsafe {
                G_ITEM = Some(QueueItem {
                    callback_discriminator_offset: 112,
                    callback_discriminator_len: D as u16,
                    metas_offset: 112 + D as u32,
                    metas_len: M as u16,
                    args_offset: (112 + D + 33 * M) as u32,
                    args_len: A as u16,
                    used: 1,
                    ..item
                });
                G_IDX = gidx;
                ON_CPI = Some(on_cpi);
            }
        }
    }
    let q = acct(qb.raw(), T - H, false, writable);
    let mut cb = Buf::<H>::new(Pubkey::new_from_array(owners[2]), Pubkey::default(), 0);
    let cbi = acct(cb.raw(), 0, false, false);
    let mut data = [0u8; 168];
    data[0] = 4;
    data[8..].copy_from_slice(&args);
    #[cfg(kani)]
    unsafe {
        stubs::VRF_OK = vrf_ok;
        stubs::VRF_PK.copy_from_slice(&odata[8..40]);
        stubs::VRF_ARGS = args;
    }
    let accounts = [oracle, idn, od, q, cbi];
    let r = run_ix(&accounts, &data);

    // ---- contract
    let mut input = [0u8; 32];
    input.copy_from_slice(&args[..32]);
    let mut in_metas = false;
    let mut i = 0;
    while i < M {
        in_metas |= mpk[i] == keys[0];
        i += 1;
    }
    let now = unsafe { SLOT };
    let fee: u64 = if item.priority_request == 1 { 800_000 } else { 500_000 };
    let ephemeral = qk == DEFAULT_EPHEMERAL_QUEUE;
    let auth = signer
        && odk == od_pda
        && odo == ephemeral_vrf_api::ID
        && qk == q_pda
        && qo == ephemeral_vrf_api::ID
        && writable;
    let typed = odata[0] == 1 && qdisc == [3, 0, 0, 0, 0, 0, 0, 0];
    let fair = item.id == input && now > item.slot && !in_metas && vrf_ok;
    let target = owners[2] == item.callback_program_id && idk == program_identity_pda().0;
    let paid = ephemeral || (lam[1] >= fee && lam[0].checked_add(fee).is_some());
    reach!(r.is_ok(), "fulfilled");
    if r.is_ok() {
        check!(auth, "P03: only the registered oracle, on its own queue");
        check!(typed, "P15: account types");
        check!(item.id == input, "P03: pending request");
        check!(now > item.slot, "P03: strictly later slot");
        check!(!in_metas, "P03: oracle key not among the callback accounts");
        check!(vrf_ok, "P03: valid proof under the registered key");
        check!(target, "P03: callback target and identity");
        check!(cpis().len() == 1, "P03: exactly one callback");
        let c = &cpis()[0];
        check!(c.program.to_bytes() == item.callback_program_id, "P03: callback program");
        check!(c.metas.len() == M + 1, "P03: callback account count");
        check!(c.metas[0].pubkey == program_identity_pda().0 && c.metas[0].is_signer && !c.metas[0].is_writable, "P03: identity signs");
        let mut i = 0;
        while i < M {
            let m = &c.metas[i + 1];
            check!(m.pubkey.to_bytes() == mpk[i] && !m.is_signer && m.is_writable == (mw[i] != 0), "P03: callback accounts as requested");
            i += 1;
        }
        check!(c.data.len() == D + 32 + A, "P03: callback data length");
        check!(c.data[..D] == disc && c.data[D + 32..] == a, "P03: callback discriminator and arguments");
        check!(c.data[D..D + 32] == rnd, "P03: randomness is the hash of the proven output");
        check!(c.nsigners == 1 && c.seeds[..] == *b"identity\xfe", "P03: identity seeds");
        let (lo, lq) = (accounts[0].lamports(), accounts[3].lamports());
        let f = if ephemeral { 0 } else { fee };
        check!(lam[1] >= f && lq == lam[1] - f && lo == lam[0] + f, "P08: fee paid from the queue to the oracle");
        if MODULAR {
            check!(unsafe { G_REMOVED } == 1, "P04: removed once");
        }
    } else {
        check!(!(auth && typed && fair && target && paid && unsafe { !CPI_FAILS }), "P03: a valid fulfilment is accepted");
    }
}

fn provide_m_8_1_2() {
    provide::<8, 1, 2, { cap(8, 1, 2) }, true, true, 0>()
}
world_proof! {
    #[kani::stub(ephemeral_vrf_api::state::QueueAccount::find_item_by_id, crate::h_provide::Qc::find_some)]
    #[kani::stub(ephemeral_vrf_api::state::QueueAccount::remove_item, crate::h_provide::Qc::remove_item)]
    #[kani::unwind(200)]
    k_provide_m_8_1_2 = provide_m_8_1_2
}
pub fn provide_r_8_1_2() {
    provide::<8, 1, 2, { cap(8, 1, 2) }, false, true, 0>()
}
world_proof! {
    #[kani::unwind(200)]
    k_provide_r_8_1_2 = provide_r_8_1_2
}
