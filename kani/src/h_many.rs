//! Native only: histories of requests, fulfilments and purges on one queue, held
//! against the abstract list of P05.  Finds failing inputs for obligations of the
//! processors' queue sections (Verus); never counted as proof.
#![cfg(not(kani))]
use crate::nd::*;
use crate::world::*;
use crate::{check, reach};

const T: usize = H + 8 + 16 + 48 * 256;

#[derive(Clone, PartialEq, Debug)]
struct Ent {
    slot: u64,
    id: [u8; 32],
    prog: [u8; 32],
    prio: u8,
    disc: Vec<u8>,
    metas: Vec<u8>,
    args: Vec<u8>,
}

/// the pending entries, read from the account bytes alone
fn entries(d: &[u8]) -> Vec<Ent> {
    let q = &d[8..];
    let n = |o: usize, l: usize| q[o..o + l].iter().rev().fold(0usize, |a, b| a << 8 | *b as usize);
    let end = n(4, 4).min(q.len());
    let (mut p, mut out) = (16, Vec::new());
    while p + 96 <= end {
        let (dl, ml, al) = (n(p + 84, 2), 33 * n(p + 86, 2), n(p + 88, 2));
        if q[p + 91] == 1 {
            let at = |o: usize, l: usize| q[o..o + l].to_vec();
            let k = |o: usize| {
                let mut b = [0u8; 32];
                b.copy_from_slice(&q[o..o + 32]);
                b
            };
            out.push(Ent { slot: n(p, 8) as u64, id: k(p + 8), prog: k(p + 40), prio: q[p + 90], disc: at(n(p + 72, 4), dl), metas: at(n(p + 76, 4), ml), args: at(n(p + 80, 4), al) });
        }
        p = (p + 96 + dl + ml + al + 7) / 8 * 8;
    }
    out
}

fn u(n: usize) -> usize {
    any::<u32>() as usize % n
}

pub fn history() {
    let keys: [[u8; 32]; 3] = any();
    let (payer_k, oracle_k) = (Pubkey::new_from_array(keys[0]), Pubkey::new_from_array(keys[1]));
    assume(keys[0] != keys[1] && keys[1] != keys[2] && keys[0] != keys[2]);
    let id = ephemeral_vrf_api::ID;
    let index: u8 = any();
    let (q_pda, _) = Pubkey::find_program_address(&[b"queue", oracle_k.as_ref(), &[index]], &id);
    let (od_pda, _) = Pubkey::find_program_address(&[b"oracle", oracle_k.as_ref()], &id);
    let (pk, _) = native::prove(&[0; 32]);
    let mut pb = Buf::<H>::new(payer_k, Pubkey::default(), 1 << 40);
    let mut ob = Buf::<H>::new(oracle_k, Pubkey::default(), 1 << 20);
    let mut odb = Buf::<{ H + 56 }>::new(od_pda, id, 1);
    odb.data()[0] = 1;
    odb.data()[8..40].copy_from_slice(&pk);
    let mut qb = Buf::<T>::new(q_pda, id, 1 << 20);
    qb.data()[0] = 3;
    qb.data()[16] = index;
    let mut sb = Buf::<H>::new(Pubkey::default(), Pubkey::default(), 0);
    let mut hb = Buf::<{ H + 56 }>::new(solana_program::sysvar::slot_hashes::id(), solana_program::sysvar::id(), 0);
    let mut model: Vec<Ent> = Vec::new();
    unsafe {
        SLOT = 1000 + (any::<u8>() as u64);
        UNIX = 77;
        ON_CPI = Some(sys_effects);
    }
    let mut grow = 2 + u(5); // requests per removal
    for _ in 0..1 + u(70) {
        unsafe { CPIS.clear() }
        let now = unsafe { SLOT };
        let was = entries(qb.data());
        let op = u(3 + grow);
        let q = acct(qb.raw(), T - H, false, true);
        let lq = q.lamports();
        if op >= 3 || model.is_empty() {
            // request
            let hi: bool = u(2) == 0;
            let prog = Pubkey::new_from_array([1 + u(2) as u8; 32]);
            let idk = Pubkey::find_program_address(&[b"identity"], &prog).0;
            let disc: Vec<u8> = vec![5; if u(4) == 0 { 3 } else { 8 }];
            let nm = u(3);
            let args: Vec<u8> = (0..u(6)).map(|i| i as u8).collect();
            let mut data = vec![if hi { 3 } else { 8 }, 0, 0, 0, 0, 0, 0, 0];
            data.extend([u(2) as u8; 32]);
            data.extend(prog.to_bytes());
            data.extend((disc.len() as u32).to_le_bytes());
            data.extend(&disc);
            data.extend((nm as u32).to_le_bytes());
            let mut metas = Vec::new();
            for i in 0..nm {
                let k = if u(12) == 0 { oracle_k.to_bytes() } else { [9 + i as u8; 32] };
                data.extend(k);
                data.extend([1, i as u8]);
                metas.extend(k);
                metas.push(i as u8);
            }
            data.extend((args.len() as u32).to_le_bytes());
            data.extend(&args);
            let mut ib = Buf::<H>::new(idk, Pubkey::default(), 0);
            let accounts = [acct(pb.raw(), 0, true, true), acct(ib.raw(), 0, true, false), q, acct(sb.raw(), 0, false, false), acct(hb.raw(), 56, false, false)];
            let r = run_ix(&accounts, &data);
            if r.is_err() {
                check!(was.len() * 256 > T - H - 300, "P07: a valid request is accepted");
                return;
            }
            let l = entries(qb.data());
            let e = l.last().cloned();
            check!(e.is_some() && l.len() == model.len() + 1 && l[..model.len()] == model[..], "P07 P04: pending entries untouched, exactly one more");
            let e = e.unwrap();
            check!(!model.iter().any(|m| m.id == e.id), "P17: the new id is not pending yet");
            check!(e == Ent { slot: now, id: e.id, prog: prog.to_bytes(), prio: hi as u8, disc, metas, args }, "P07: the entry records what was asked");
            check!(accounts[2].lamports() - lq == if hi { 800_000 } else { 500_000 }, "P08: the fee of the priority is escrowed");
            model.push(e);
            reach!(true, "requested");
        } else if op < 2 {
            // fulfilment of any pending request
            let k = u(model.len());
            let e = model[k].clone();
            let barred = e.metas.chunks(33).any(|m| m[..32] == oracle_k.to_bytes());
            if (barred || now <= e.slot) && u(4) != 0 {
                continue;
            }
            let (_, args) = native::prove(&e.id);
            let mut data = vec![4u8, 0, 0, 0, 0, 0, 0, 0];
            data.extend(args);
            let mut idb = Buf::<H>::new(program_identity_pda().0, Pubkey::default(), 0);
            let mut cb = Buf::<H>::new(Pubkey::new_from_array(e.prog), Pubkey::default(), 0);
            let lo = acct(ob.raw(), 0, true, true).lamports();
            let accounts = [acct(ob.raw(), 0, true, true), acct(idb.raw(), 0, false, false), acct(odb.raw(), 56, false, false), q, acct(cb.raw(), 0, false, false)];
            let r = run_ix(&accounts, &data);
            if r.is_ok() {
                check!(now > e.slot, "P03: strictly later slot");
                check!(!barred, "P03: the oracle is not among the callback accounts");
                model.remove(k);
                check!(entries(qb.data()) == model, "P04: exactly the fulfilled request leaves, the others stay in order and unchanged");
                check!(cpis().len() == 1, "P03: exactly one call");
                let c = &cpis()[0];
                let want = [&e.disc[..], &solana_program::hash::hash(&args[32..64]).to_bytes(), &e.args].concat();
                check!(c.program.to_bytes() == e.prog && c.data == want, "P03 P04: the callback of this request");
                let m = c.metas.iter().skip(1).flat_map(|m| [&m.pubkey.to_bytes()[..], &[m.is_writable as u8]].concat()).collect::<Vec<u8>>();
                let w = e.metas.chunks(33).flat_map(|m| [&m[..32], &[(m[32] != 0) as u8]].concat()).collect::<Vec<u8>>();
                check!(m == w && c.metas.iter().skip(1).all(|m| !m.is_signer), "P03: callback accounts as requested");
                check!(c.metas[0].pubkey == program_identity_pda().0 && c.metas[0].is_signer, "P03: signed by the identity");
                let f = if e.prio == 1 { 800_000 } else { 500_000 };
                check!(lq - accounts[3].lamports() == f && accounts[0].lamports() - lo == f, "P08: the fee of this request is paid");
                reach!(true, "fulfilled");
            } else {
                check!(now <= e.slot || barred, "P03 P04: a valid fulfilment is accepted");
                return;
            }
        } else {
            let lo = acct(ob.raw(), 0, true, true).lamports();
            let accounts = [acct(ob.raw(), 0, false, true), q];
            let r = run_ix(&accounts, &[9, 0, 0, 0, 0, 0, 0, 0, index]);
            let gone = |e: &Ent| now.saturating_sub(e.slot) > 240;
            let f: u64 = model.iter().filter(|e| gone(e)).map(|e| if e.prio == 1 { 800_000 } else { 500_000 }).sum();
            check!(r.is_ok(), "P09: purging a genuine queue succeeds");
            model.retain(|e| !gone(e));
            check!(entries(qb.data()) == model, "P09: exactly the expired requests leave, the others stay in order and unchanged");
            check!(lq - accounts[1].lamports() == f && accounts[0].lamports() - lo == f, "P08 P09: exactly the expired requests' fees go to the oracle");
            reach!(true, "purged");
        }
        unsafe { SLOT += [0, 1, 1, 40, 120, 240, 241][u(7)] * (u(2) as u64) }
        if u(20) == 0 {
            grow = u(6);
        }
    }
}
world_proof! {
    k_many = history
}
