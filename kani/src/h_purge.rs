//! Contract of the purge instruction (real queue code, K items).
use crate::h_request::item_len;
use crate::nd::*;
use crate::world::*;
use crate::{check, reach};

const fn al8(x: usize) -> usize {
    (x + 7) & !7
}
pub const fn pcap(k: usize) -> usize {
    H + 8 + 16 + k * al8(item_len(8, 1, 1))
}

pub fn purge<const K: usize, const T: usize, const GONE: usize>() {
    let keys: [[u8; 32]; 2] = any();
    let owner: [u8; 32] = any();
    let pda: [u8; 32] = any();
    let flags: [bool; 3] = any();
    let lam: [u64; 2] = lamports();
    let qdisc: [u8; 8] = any_hint([3, 0, 0, 0, 0, 0, 0, 0]);
    let index: u8 = any();
    let slots: [u64; K] = any();
    let prio: [u8; K] = any();
    let ids: [[u8; 32]; K] = any();
    unsafe {
        SLOT = any();
    }
    let now = unsafe { SLOT };
    let oracle_key = Pubkey::new_from_array(keys[0]);
    let q_pda = reg_pda(&[b"queue", oracle_key.as_ref(), &[index]], &ephemeral_vrf_api::ID, &pda, 0).0;
    let mut ob = Buf::<H>::new(oracle_key, Pubkey::default(), lam[0]);
    let oracle = acct(ob.raw(), 0, false, true);
    let qk = if flags[0] { q_pda } else { Pubkey::new_from_array(keys[1]) };
    let qo = if flags[1] { ephemeral_vrf_api::ID } else { Pubkey::new_from_array(owner) };
    let mut qb = Buf::<T>::new(qk, qo, lam[1]);
    qb.data()[..8].copy_from_slice(&qdisc);
    {
        let mut q = QueueAccount::load(&mut qb.data()[8..]).unwrap();
        q.header.index = index;
        let mut i = 0;
        while i < K {
            let it = QueueItem { slot: slots[i], id: ids[i], priority_request: prio[i], ..Default::default() };
            q.add_item(&it, &[7; 8], &[CompactAccountMeta { pubkey: [3; 32], is_writable: 1 }], &[9]).unwrap();
            i += 1;
        }
        if GONE < K {
            q.remove_item(GONE).unwrap();
        }
    }
    let before = qb.0;
    let q = acct(qb.raw(), T - H, false, flags[2]);
    let accounts = [oracle, q];
    let data = [9u8, 0, 0, 0, 0, 0, 0, 0, index];
    let r = run_ix(&accounts, &data);

    let auth = qk == q_pda && qo == ephemeral_vrf_api::ID && flags[2];
    let typed = qdisc == [3, 0, 0, 0, 0, 0, 0, 0];
    let mut total: u64 = 0;
    let mut kept: u32 = 0;
    let mut expired = [false; K];
    let mut i = 0;
    while i < K {
        if i != GONE {
            expired[i] = now > slots[i] && now - slots[i] > 240;
            if expired[i] {
                total += if prio[i] == 1 { 800_000 } else { 500_000 };
            } else {
                kept += 1;
            }
        }
        i += 1;
    }
    let ephemeral = qk == DEFAULT_EPHEMERAL_QUEUE;
    let paid = if ephemeral { 0 } else { total };
    let payable = lam[1] >= paid && lam[0].checked_add(paid).is_some();
    let d = unsafe { core::slice::from_raw_parts((qb.raw() as *const u8).add(H), T - H) };
    reach!(r.is_ok() && kept == 1, "one expired");
    if r.is_ok() {
        check!(auth, "P09: only the oracle's own program-owned queue, writable");
        check!(typed, "P09 P15: only an initialised queue");
        check!(d[8..12] == kept.to_le_bytes(), "P09: count of remaining requests");
        check!(d[16] == index, "P09: queue index untouched");
        let mut cur = [0u8; 4];
        cur.copy_from_slice(&d[12..16]);
        let cursor = u32::from_le_bytes(cur) as usize;
        let mut i = 0;
        while i < K {
            let pos = 24 + i * al8(item_len(8, 1, 1));
            let end = pos + item_len(8, 1, 1);
            if i != GONE {
                if expired[i] {
                    check!(d[pos + 91] != 1 || cursor + 8 < pos + 96, "P09: an expired request is removed");
                } else {
                    check!(cursor + 8 >= end && cursor + 8 <= T - H, "P09: a remaining request stays in the queue");
                    check!(d[pos..end] == before[H + pos..H + end], "P09: remaining requests are unchanged");
                }
            }
            i += 1;
        }
        check!(payable, "P08 P09: the fees are paid in full or not at all");
        check!(accounts[1].lamports() == lam[1] - paid && accounts[0].lamports() == lam[0] + paid, "P08 P09: exactly the expired requests' fees go to the oracle");
    } else {
        check!(!(auth && typed && payable), "P09: purging a genuine queue succeeds");
        check!(accounts[0].lamports() as u128 + accounts[1].lamports() as u128 <= lam[0] as u128 + lam[1] as u128, "P08: no lamports created");
    }
    check!(cpis().len() == 0, "P09: purging makes no call");
}
macro_rules! pur {
    ($h:ident, $f:ident, $k:expr, $gone:expr) => {
        pub fn $f() {
            purge::<$k, { pcap($k) }, $gone>()
        }
        world_proof! {
            #[kani::unwind(800)]
            $h = $f
        }
    };
}
pur!(k_purge_1, purge_1, 1, 9);
pur!(k_purge_2, purge_2, 2, 9);
pur!(k_purge_3g, purge_3g, 3, 1);
