//! Contract of the two request instructions.
use crate::nd::*;
use crate::world::*;
use crate::{check, reach};

const fn al8(x: usize) -> usize {
    (x + 7) & !7
}
/// bytes one item with this payload occupies in the variable region
pub const fn item_len(d: usize, m: usize, a: usize) -> usize {
    96 + d + 33 * m + a
}
/// account capacity: header plus `e` old items (8,1,1) plus one new item, less `short`
pub const fn rcap(e: usize, d: usize, m: usize, a: usize, short: usize) -> usize {
    H + 8 + 16 + e * al8(item_len(8, 1, 1)) + item_len(d, m, a) - short
}
pub const fn plen(d: usize, m: usize, a: usize) -> usize {
    8 + 32 + 32 + 4 + d + 4 + 34 * m + 4 + a
}

/// TAG: instruction; E: pending items; D/M/A: payload; T: queue buffer; P: data
/// length; FITS: whether the queue has room; GONE: index of an already removed item
pub fn request<const TAG: u8, const E: usize, const D: usize, const M: usize, const A: usize, const T: usize, const P: usize, const FITS: bool, const GONE: usize, const BADBOOL: bool>() {
    // E > 0 is about the ids of pending entries: the caller is a fixed valid one
    let light = E > 0;
    let keys: [[u8; 32]; 3] = if light { [[11; 32], [12; 32], [13; 32]] } else { any() };
    let owners: [[u8; 32]; 2] = if light { [[14; 32], [15; 32]] } else { any() };
    let flags: [bool; 8] = if light { [true, true, true, false, true, true, true, true] } else { any() };
    let seed: [u8; 32] = if light { [16; 32] } else { any() };
    let prog: [u8; 32] = if light { [17; 32] } else { any() };
    let disc: [u8; D] = if light { [18; D] } else { any() };
    let mpk: [[u8; 32]; M] = if light { [[19; 32]; M] } else { any() };
    // signer/writable flags: the four combinations in turn (concrete)
    let mut mfl = [[0u8; 2]; M];
    let mut i = 0;
    while i < M {
        mfl[i] = [(i / 2 % 2) as u8, ((i + 1) % 2) as u8];
        i += 1;
    }
    if BADBOOL && M > 0 {
        mfl[M - 1][0] = 2;
    }
    let args: [u8; A] = if light { [20; A] } else { any() };
    let sh: [u8; 56] = if light { [21; 56] } else { any() };
    let qdisc: [u8; 8] = if light { [3, 0, 0, 0, 0, 0, 0, 0] } else { any_hint([3, 0, 0, 0, 0, 0, 0, 0]) };
    let qindex: u8 = if light { 5 } else { any() };
    let lam: [u64; 2] = if light { [1 << 40, 1 << 30] } else { lamports() };
    let olds: [[u8; 32]; E] = any();
    let oslot: [u64; E] = any();
    unsafe {
        SLOT = if light { 1000 } else { any() };
        UNIX = if light { 2000 } else { any() };
        CPI_FAILS = if light { false } else { !any::<bool>() };
    }
    let pda: [u8; 32] = if light { [22; 32] } else { any() };
    let houts: [[u8; 32]; 4] = any();
    let prog_key = Pubkey::new_from_array(prog);
    // ---- accounts
    let mut pb = Buf::<H>::new(Pubkey::new_from_array(keys[0]), Pubkey::default(), lam[0]);
    let payer = acct(pb.raw(), 0, flags[0], true);
    let id_pda = reg_pda(&[b"identity"], &prog_key, &pda, 0).0;
    let idk = if flags[1] { id_pda } else { Pubkey::new_from_array(keys[1]) };
    let mut ib = Buf::<H>::new(idk, Pubkey::default(), 0);
    let idn = acct(ib.raw(), 0, flags[2], false);
    let qk = if flags[3] { DEFAULT_EPHEMERAL_QUEUE } else { Pubkey::new_from_array(keys[2]) };
    let mut qb = Buf::<T>::new(qk, ephemeral_vrf_api::ID, lam[1]);
    qb.data()[..8].copy_from_slice(&qdisc);
    {
        let mut q = QueueAccount::load(&mut qb.data()[8..]).unwrap();
        q.header.index = qindex;
        let mut i = 0;
        while i < E {
            let it = QueueItem { slot: oslot[i], id: olds[i], ..Default::default() };
            q.add_item(&it, &[7; 8], &[CompactAccountMeta { pubkey: [3; 32], is_writable: 1 }], &[9]).unwrap();
            i += 1;
        }
        if GONE < E {
            q.remove_item(GONE).unwrap();
        }
    }
    let before = qb.0;
    let q = acct(qb.raw(), T - H, false, true);
    let mut sb = Buf::<H>::new(Pubkey::default(), Pubkey::default(), 0);
    let sys = acct(sb.raw(), 0, false, false);
    let shk = if flags[4] { solana_program::sysvar::slot_hashes::id() } else { Pubkey::new_from_array(owners[0]) };
    let sho = if flags[5] { solana_program::sysvar::id() } else { Pubkey::new_from_array(owners[1]) };
    let mut hb = Buf::<{ H + 56 }>::new(shk, sho, 0);
    hb.data().copy_from_slice(&sh);
    let slothashes = acct(hb.raw(), 56, false, false);
    // ---- payload (borsh)
    let mut data = [0u8; P];
    data[0] = TAG;
    data[8..40].copy_from_slice(&seed);
    data[40..72].copy_from_slice(&prog);
    let mut n = 72;
    data[n..n + 4].copy_from_slice(&(D as u32).to_le_bytes());
    n += 4;
    data[n..n + D].copy_from_slice(&disc);
    n += D;
    data[n..n + 4].copy_from_slice(&(M as u32).to_le_bytes());
    n += 4;
    let mut bools = true;
    let mut i = 0;
    while i < M {
        data[n..n + 32].copy_from_slice(&mpk[i]);
        data[n + 32] = mfl[i][0];
        data[n + 33] = mfl[i][1];
        bools &= mfl[i][0] < 2 && mfl[i][1] < 2;
        n += 34;
        i += 1;
    }
    data[n..n + 4].copy_from_slice(&(A as u32).to_le_bytes());
    n += 4;
    data[n..n + A].copy_from_slice(&args);

    // ---- the ids the request may get: one per insertion index
    let live = E - if GONE < E { 1 } else { 0 };
    let mut ids = [[0u8; 32]; 4];
    let mut j = 0;
    while j <= live {
        ids[j] = unsafe { reg_hash(&[&seed, &SLOT.to_le_bytes(), &sh[16..48], &disc, &prog, &UNIX.to_le_bytes(), &((live + j) as u32).to_le_bytes()], &houts[j]) };
        j += 1;
    }
    let accounts = [payer, idn, q, sys, slothashes];
    let r = run_ix(&accounts, &data);

    // ---- contract
    let ephemeral = qk == DEFAULT_EPHEMERAL_QUEUE;
    let auth = flags[0] && idk == id_pda && flags[2];
    let sysvar = shk == solana_program::sysvar::slot_hashes::id() && sho == solana_program::sysvar::id();
    let typed = qdisc == [3, 0, 0, 0, 0, 0, 0, 0];
    let limits = D <= 8 && M <= 20 && A <= 512 && FITS;
    let cpi_ok = ephemeral || unsafe { !CPI_FAILS };
    let fee: u64 = if TAG == 3 { 800_000 } else { 500_000 };
    let slot = unsafe { SLOT };
    let d = unsafe { core::slice::from_raw_parts((qb.raw() as *const u8).add(H), T - H) };
    reach!(r.is_ok() || !limits, "accepted");
    if r.is_ok() {
        check!(auth, "P07: payer and callback program identity both signed");
        check!(sysvar, "P07: genuine slot-hash sysvar");
        check!(typed, "P07 P15: only a genuine queue");
        check!(limits, "P07: documented size limits");
        check!(d[8..12] == (live as u32 + 1).to_le_bytes(), "P07 P05: exactly one more pending entry");
        check!(d[16] == qindex, "P07: queue index untouched");
        // an already removed tail is reused, anything else is appended after
        let pos = 8 + 16 + E * al8(item_len(8, 1, 1));
        check!(d[24..pos] == before[H + 24..H + pos], "P07 P05: pending entries untouched");
        let it: QueueItem = unsafe { core::ptr::read_unaligned(d[pos..pos + 96].as_ptr() as *const QueueItem) };
        let l = d.len();
        let acc = &d[8..l];
        check!(it.used == 1 && it.slot == slot, "P07: current slot");
        check!(it.priority_request == (TAG == 3) as u8, "P07 P08: priority of the instruction used");
        check!(it.callback_program_id == prog, "P07: callback program");
        check!(it.callback_discriminator_len as usize == D && it.metas_len as usize == M && it.args_len as usize == A, "P07: payload lengths");
        let p8 = pos - 8;
        check!(it.callback_discriminator_offset as usize == p8 + 96 && it.metas_offset as usize == p8 + 96 + D && it.args_offset as usize == p8 + 96 + D + 33 * M, "P07 P05: payload inside the entry");
        check!(acc[p8 + 96..p8 + 96 + D] == disc, "P07: discriminator");
        check!(acc[p8 + 96 + D + 33 * M..p8 + 96 + D + 33 * M + A] == args, "P07: arguments");
        let mut i = 0;
        while i < M {
            let o = p8 + 96 + D + 33 * i;
            check!(acc[o..o + 32] == mpk[i] && acc[o + 32] == mfl[i][1], "P07: callback accounts");
            i += 1;
        }
        let mut found = false;
        let mut j = 0;
        while j <= live {
            found |= it.id == ids[j];
            j += 1;
        }
        check!(found, "P07: id is the hash of seed, slot, slot hash, discriminator, program, time and index");
        let mut i = 0;
        while i < E {
            if i != GONE {
                check!(it.id != olds[i], "P17: the new id is not pending yet");
            }
            i += 1;
        }
        if ephemeral {
            check!(cpis().len() == 0, "P08: the default ephemeral queue charges nothing");
        } else {
            check!(cpis().len() == 1, "P08: exactly one transfer");
            let c = &cpis()[0];
            check!(c.program == Pubkey::default(), "P08: system transfer");
            check!(c.data.len() == 12 && c.data[..4] == [2, 0, 0, 0] && c.data[4..] == fee.to_le_bytes(), "P08: exactly the fee of the priority");
            check!(c.metas.len() == 2 && c.metas[0].pubkey.to_bytes() == keys[0] && c.metas[0].is_signer && c.metas[1].pubkey == qk && c.metas[1].is_writable, "P08: from the payer to the queue");
            check!(c.nsigners == 0, "P08: no program signature");
        }
    } else {
        check!(!(auth && sysvar && typed && limits && cpi_ok && bools), "P07: a valid request is accepted");
    }
    check!(accounts[0].lamports() == lam[0] && accounts[2].lamports() == lam[1], "P08: balances change only by the transfer");
}

macro_rules! req {
    ($h:ident, $f:ident, $tag:expr, $e:expr, $d:expr, $m:expr, $a:expr, $short:expr, $gone:expr) => {
        pub fn $f() {
            request::<$tag, $e, $d, $m, $a, { rcap($e, $d, $m, $a, $short) }, { plen($d, $m, $a) }, { $short == 0 }, $gone, false>()
        }
        world_proof! {
            #[kani::unwind(800)]
            $h = $f
        }
    };
}
req!(k_req_hi_0, req_hi_0, 3, 0, 8, 1, 2, 0, 9);
req!(k_req_lo_0, req_lo_0, 8, 0, 8, 1, 2, 0, 9);
req!(k_req_lo_4, req_lo_4, 8, 0, 3, 4, 1, 0, 9);
req!(k_req_short, req_short, 8, 0, 8, 1, 2, 1, 9);
req!(k_req_e1, req_e1, 8, 1, 8, 1, 1, 0, 9);
req!(k_req_e2_gone, req_e2_gone, 8, 2, 8, 1, 1, 0, 0);
req!(k_req_d9, req_d9, 8, 0, 9, 1, 1, 0, 9);
req!(k_req_m20, req_m20, 8, 0, 8, 20, 1, 0, 9);
req!(k_req_m21, req_m21, 8, 0, 8, 21, 1, 0, 9);
req!(k_req_a512, req_a512, 8, 0, 8, 1, 512, 0, 9);
req!(k_req_a513, req_a513, 8, 0, 8, 1, 513, 0, 9);
