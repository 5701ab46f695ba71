//! Contracts of the queue operations: an ordered list of entries (P05) and
//! memory safety on arbitrary bytes (P06).
use crate::nd::*;
use crate::{check, reach};
use ephemeral_vrf_api::prelude::*;

#[repr(C, align(8))]
pub struct Al<const N: usize>(pub [u8; N]);

/// Random sequences (native only): the bounded stand-in when a verifier run is inconclusive.
#[cfg(not(kani))]
pub fn walk() {
    let size = 16 + (any::<u16>() as usize % 2000);
    let mut b = vec![0u64; size / 8 + 1];
    let acc: &mut [u8] = unsafe { core::slice::from_raw_parts_mut(b.as_mut_ptr() as *mut u8, size) };
    let mut list: Vec<(QueueItem, Vec<u8>, Vec<CompactAccountMeta>, Vec<u8>)> = Vec::new();
    let mut q = QueueAccount::load(acc).unwrap();
    for _ in 0..60 {
        let op: u8 = any();
        if op % 5 < 3 {
            let mut it = QueueItem::default();
            it.slot = any();
            it.id = any();
            it.id[0] %= 4;
            it.id[1..].fill(0);
            it.callback_program_id = any();
            it.priority_request = any();
            let dl = [0usize, 1, 8, 9, 255, 256, 65535, 65536, 65540][any::<u8>() as usize % if op == 7 { 9 } else { 4 }];
            let disc: Vec<u8> = (0..dl).map(|i| i as u8 ^ it.slot as u8).collect();
            let ml = [0usize, 1, 2, 7, 19, 20, 21][any::<u8>() as usize % 7];
            let metas: Vec<CompactAccountMeta> = (0..ml).map(|i| { let mut c = CompactAccountMeta::default(); c.pubkey = [i as u8 ^ it.id[0]; 32]; c.is_writable = (i % 2) as u8; c }).collect();
            let al = [0usize, 1, 3, 8, 100, 255, 256, 511, 512, 513][any::<u8>() as usize % 10];
            let args: Vec<u8> = (0..al).map(|i| (i * 7) as u8 ^ it.slot as u8).collect();
            if let Ok(at) = q.add_item(&it, &disc, &metas, &args) {
                check!(at == list.len(), "P05: insertion appends");
                list.push((it, disc, metas, args));
            }
        } else {
            let at = any::<u8>() as usize % (list.len() + 2);
            match q.remove_item(at) {
                Ok(it) => {
                    check!(at < list.len(), "P05: removal only at a position of the list");
                    let e = list.remove(at);
                    check!(e.0.id == it.id && e.0.slot == it.slot, "P05: removal returns the removed entry");
                }
                Err(_) => check!(at >= list.len(), "P05: every position of the list can be removed"),
            }
        }
        check!(q.len() == list.len() && q.is_empty() == list.is_empty(), "P05: the reported length is the number of entries");
        let all: Vec<QueueItem> = q.iter_items().collect();
        check!(all.len() == list.len(), "P05: iteration reports the whole list");
        for (i, e) in list.iter().enumerate() {
            let it = q.get_item_by_index(i);
            check!(it.is_some() && it == Some(all[i]), "P05: every position below the length has an entry");
            let it = it.unwrap();
            check!(it.slot == e.0.slot && it.id == e.0.id && it.callback_program_id == e.0.callback_program_id && it.priority_request == e.0.priority_request, "P05: the entry's fields");
            check!(*it.callback_discriminator(q.acc) == e.1[..], "P05: the entry's discriminator");
            check!(it.account_metas(q.acc) == &e.2[..], "P05: the entry's account list");
            check!(*it.callback_args(q.acc) == e.3[..], "P05: the entry's arguments");
            let f = list.iter().position(|x| x.0.id == e.0.id).unwrap();
            check!(q.find_item_by_id(&e.0.id) == Some((f, all[f])), "P05: lookup by id reports the first entry with that id");
        }
        check!(q.get_item_by_index(list.len()).is_none(), "P05: no entry past the length");
        check!(q.find_item_by_id(&[9; 32]).is_none(), "P05: lookup by id finds an entry with that id");
        reach!(list.len() > 2, "three entries");
    }
}

/// Arbitrary account bytes of every length up to N; OP: 0 readers, 1 find, 2 iterate, 3 remove, 4 insert
pub fn raw<const N: usize, const OP: u8>() {
    let mut b = Al::<N>(any_small());
    let n: usize = any::<u16>() as usize;
    assume(n <= N);
    let arg: u8 = any();
    let id: [u8; 32] = if OP == 1 { any() } else { [0; 32] };
    let off: usize = 0;
    let mut q = match QueueAccount::load(&mut b.0[off..off + n]) {
        Ok(q) => q,
        Err(_) => {
            reach!(n < 12, "refused");
            return;
        }
    };
    if OP == 0 {
        let it = q.get_item_by_index(arg as usize);
        reach!(it.is_some(), "found");
    } else if OP == 1 {
        let f = q.find_item_by_id(&id);
        reach!(f.is_some(), "found");
    } else if OP == 2 {
        let mut k = 0usize;
        for _ in q.iter_items() {
            k += 1;
        }
        reach!(k > 0, "found");
    } else if OP == 3 {
        let r = q.remove_item(arg as usize);
        reach!(r.is_ok(), "removed");
    } else {
        let r = q.add_item(&QueueItem::default(), &id[..3], &[CompactAccountMeta::default(); 1], &id[..2]);
        reach!(r.is_ok(), "inserted");
    }
    let _ = (q.len(), q.is_empty());
}
#[cfg(kani)]
fn any_small<const N: usize>() -> [u8; N] {
    kani::any()
}
/// natively: mostly zero bytes, so that item headers make sense
#[cfg(not(kani))]
fn any_small<const N: usize>() -> [u8; N] {
    let mut r: [u8; N] = any();
    let c: u8 = any();
    if c % 2 == 0 && N > 32 {
        r[12..].fill(0);
        r[4..8].copy_from_slice(&(N as u32).to_le_bytes());
        let mut p = 16;
        while p + 96 <= N {
            r[p + 91] = any::<u8>() % 2;
            r[p + 84 + (any::<u8>() % 6) as usize] = any::<u8>() % 40;
            p += 96;
        }
    }
    r
}
/// Accessors of an arbitrary entry over an arbitrary account
pub fn access<const N: usize>() {
    let b: [u8; N] = any();
    let n: usize = any::<u8>() as usize;
    assume(n <= N);
    let mut it = QueueItem::default();
    it.callback_discriminator_offset = any();
    it.metas_offset = any();
    it.args_offset = any();
    it.callback_discriminator_len = any();
    it.metas_len = any();
    it.args_len = any();
    let acc = &b[..n];
    let (d, m, a) = (it.callback_discriminator(acc), it.account_metas(acc), it.callback_args(acc));
    let at = |p: *const u8, len: usize| {
        let s = acc.as_ptr() as usize;
        len == 0 || (p as usize >= s && p as usize + len <= s + n)
    };
    check!(at(d.as_ptr(), d.len()), "P06: the discriminator lies inside the account data");
    check!(at(m.as_ptr() as *const u8, m.len() * 33), "P06: the account list lies inside the account data");
    check!(at(a.as_ptr(), a.len()), "P06: the arguments lie inside the account data");
    reach!(d.len() > 1 && m.len() == 1 && a.len() > 2, "all present");
    let mut s = 0u8;
    if let Some(x) = d.last() {
        s ^= *x;
    }
    if let Some(x) = m.last() {
        s ^= x.is_writable ^ x.pubkey[0];
    }
    if let Some(x) = a.last() {
        s ^= *x;
    }
    let _ = s;
}

macro_rules! q {
    ($h:ident, $b:expr) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind(100)]
        pub fn $h() {
            $b()
        }
        #[cfg(not(kani))]
        pub fn $h() {
            nopanic($b)
        }
    };
}
/// natively, a panic of the code under test is a failed obligation of P06
#[cfg(not(kani))]
fn nopanic(f: fn()) {
    if let Err(e) = std::panic::catch_unwind(f) {
        let m = crate::world::native::message(&e);
        if m.starts_with("CHECK-FAILED") || m.starts_with("ASSUMPTION") {
            std::panic::resume_unwind(e)
        }
        panic!("CHECK-FAILED: P05 P06: panic: {}", m)
    }
}
/// The decoding of an entry's 96 bytes (`dec` in the Verus contracts) and opening a fresh account.
pub fn codec() {
    let raw: [u8; 96] = any();
    let mut z = Al::<124>([0; 124]);
    match QueueAccount::load(&mut z.0) {
        Ok(q) => check!(q.len() == 0 && q.header.cursor == 16 && q.get_item_by_index(0).is_none(), "P05: a fresh account is the empty list"),
        Err(_) => check!(false, "P05: an aligned account opens"),
    }
    let mut b = Al::<124>([0; 124]);
    b.0[0] = 1;
    b.0[4] = 115;
    let mut i = 0;
    while i < 96 {
        b.0[16 + i] = if i == 91 { 1 } else { raw[i] };
        i += 1;
    }
    let q = match QueueAccount::load(&mut b.0) {
        Ok(q) => q,
        Err(_) => return,
    };
    match q.get_item_by_index(0) {
        None => check!(false, "P05: every position below the length has an entry"),
        Some(x) => {
            reach!(x.slot == 9, "decoded");
            check!(x.slot.to_le_bytes() == raw[..8] && x.id == raw[8..40] && x.callback_program_id == raw[40..72], "P05: decoding inverts encoding");
            check!(x.callback_discriminator_offset.to_le_bytes() == raw[72..76] && x.metas_offset.to_le_bytes() == raw[76..80] && x.args_offset.to_le_bytes() == raw[80..84], "P05: decoding inverts encoding");
            check!(x.callback_discriminator_len.to_le_bytes() == raw[84..86] && x.metas_len.to_le_bytes() == raw[86..88] && x.args_len.to_le_bytes() == raw[88..90] && x.priority_request == raw[90], "P05: decoding inverts encoding");
        }
    }
}

q!(k_q_codec, codec);
#[cfg(not(kani))]
q!(k_q_walk, walk);
q!(k_raw_get, raw::<232, 0>);
q!(k_raw_find, raw::<232, 1>);
q!(k_raw_iter, raw::<232, 2>);
q!(k_raw_remove, raw::<136, 3>);
q!(k_raw_add, raw::<160, 4>);
q!(k_acc, access::<96>);
