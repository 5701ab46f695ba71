#![allow(dead_code, static_mut_refs)]
// Runs instructions of the real program natively with recorded cross-program calls.
pub use ephemeral_vrf_api::prelude::*;
pub use solana_program::account_info::AccountInfo;
pub use solana_program::instruction::{AccountMeta, Instruction};
pub use solana_program::program_error::ProgramError;
pub use solana_program::pubkey::Pubkey;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};

pub type R = Result<(), ProgramError>;
pub static mut SLOT: u64 = 1000;
pub static mut UNIX: i64 = 77;
pub static mut CALLS: Vec<Instruction> = Vec::new();
pub static mut SIGNERS: usize = 0;

struct S;
impl SyscallStubs for S {
    fn sol_log(&self, _: &str) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> R {
        unsafe {
            CALLS.push(ix.clone());
            SIGNERS += seeds.len();
        }
        if ix.program_id == Pubkey::default() {
            let n = |o: usize| u64::from_le_bytes(ix.data[o..o + 8].try_into().unwrap());
            let acc = |i: usize| infos.iter().find(|a| *a.key == ix.accounts[i].pubkey).unwrap();
            let pay = |n: u64| -> R {
                if acc(0).lamports() < n {
                    return Err(ProgramError::InsufficientFunds);
                }
                **acc(0).lamports.borrow_mut() -= n;
                **acc(1).lamports.borrow_mut() += n;
                Ok(())
            };
            let own = |i: usize, o: usize| acc(i).assign(&Pubkey::new_from_array(ix.data[o..o + 32].try_into().unwrap()));
            match ix.data[0] {
                0 => {
                    pay(n(4))?;
                    acc(1).resize(n(12) as usize)?;
                    own(1, 20);
                }
                1 => own(0, 4),
                2 => pay(n(4))?,
                8 => acc(0).resize(n(4) as usize)?,
                _ => {}
            }
        }
        Ok(())
    }
    fn sol_get_sysvar(&self, id: *const u8, p: *mut u8, off: u64, len: u64) -> u64 {
        let id = unsafe { *(id as *const [u8; 32]) };
        let mut b = Vec::new();
        if id == solana_program::sysvar::clock::id().to_bytes() {
            unsafe {
                b.extend_from_slice(&SLOT.to_le_bytes());
                b.extend_from_slice(&[0; 24]);
                b.extend_from_slice(&UNIX.to_le_bytes());
            }
        } else {
            b.extend_from_slice(&3480u64.to_le_bytes());
            b.extend_from_slice(&2f64.to_le_bytes());
            b.push(50);
        }
        unsafe { std::ptr::copy_nonoverlapping(b[off as usize..].as_ptr(), p, len as usize) };
        0
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::clock::Clock) = solana_program::clock::Clock { slot: SLOT, unix_timestamp: UNIX, ..Default::default() } };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
}
pub fn start() {
    set_syscall_stubs(Box::new(S));
    unsafe { CALLS.clear() }
}
/// A leaked account in the loader's layout, with room to grow.
pub fn account(key: Pubkey, owner: Pubkey, lamports: u64, data: &[u8], signer: bool, writable: bool) -> AccountInfo<'static> {
    let total = 88 + data.len() + 20_480;
    let v: &'static mut [u64] = Vec::leak(vec![0u64; total / 8 + 1]);
    let p = v.as_mut_ptr() as *mut u8;
    unsafe {
        std::ptr::copy_nonoverlapping((data.len() as u32).to_le_bytes().as_ptr(), p.add(4), 4);
        std::ptr::copy_nonoverlapping(key.as_ref().as_ptr(), p.add(8), 32);
        std::ptr::copy_nonoverlapping(owner.as_ref().as_ptr(), p.add(40), 32);
        *(p.add(72) as *mut u64) = lamports;
        *(p.add(80) as *mut u64) = data.len() as u64;
        std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(88), data.len());
        AccountInfo::new(
            &*(p.add(8) as *const Pubkey),
            signer,
            writable,
            &mut *(p.add(72) as *mut u64),
            std::slice::from_raw_parts_mut(p.add(88), data.len()),
            &*(p.add(40) as *const Pubkey),
            false,
        )
    }
}
pub const VRF: Pubkey = ephemeral_vrf_api::ID;
pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(seeds, program).0
}
pub fn oracle_account(oracle: &Pubkey, vrf_key: [u8; 32], slot: u64, open: u64) -> AccountInfo<'static> {
    let mut d = vec![0u8; 56];
    d[0] = 1;
    d[8..40].copy_from_slice(&vrf_key);
    d[40..48].copy_from_slice(&slot.to_le_bytes());
    d[48..56].copy_from_slice(&open.to_le_bytes());
    account(pda(&[b"oracle", oracle.as_ref()], &VRF), VRF, 10_000_000, &d, false, true)
}
pub fn queue_account(oracle: &Pubkey, index: u8, size: usize, lamports: u64) -> AccountInfo<'static> {
    let mut d = vec![0u8; size];
    d[0] = 3;
    d[16] = index;
    account(pda(&[b"queue", oracle.as_ref(), &[index]], &VRF), VRF, lamports, &d, false, true)
}
pub fn with_queue<T>(q: &AccountInfo, f: impl FnOnce(&mut QueueAccount) -> T) -> T {
    let mut d = q.data.borrow_mut();
    let mut qa = QueueAccount::load(&mut d[8..]).unwrap();
    f(&mut qa)
}
pub fn ids(q: &AccountInfo) -> Vec<[u8; 32]> {
    with_queue(q, |q| q.iter_items().map(|i| i.id).collect())
}
pub fn run(accounts: &[AccountInfo<'static>], data: &[u8]) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ephemeral_vrf_program::process_instruction(&VRF, accounts, data))) {
        Ok(r) => r,
        Err(_) => Err(ProgramError::Custom(0xdead)),
    }
}
pub fn clear_calls() {
    unsafe { CALLS.clear() }
}
pub fn calls() -> &'static Vec<Instruction> {
    unsafe { &CALLS }
}
/// An honest proof: (public key, the 160 argument bytes of provide_randomness)
pub fn prove(input: &[u8; 32]) -> ([u8; 32], [u8; 160]) {
    use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, Scalar};
    let h2 = |p: &[u8], m: &[u8]| Scalar::from_bytes_mod_order(solana_program::hash::hashv(&[p, m]).to_bytes());
    let sk = Scalar::from(987654321u64);
    let k = Scalar::from(1122334455u64);
    let h = h2(b"VRF-Ephem-HashToPoint", input) * G;
    let _ = &h;
    let h = h2(VRF_PREFIX_HASH_TO_POINT, input) * G;
    let (pk, out, cb, ch) = ((sk * G).compress(), (sk * h).compress(), (k * G).compress(), (k * h).compress());
    let m = solana_program::hash::hashv(&[VRF_PREFIX_CHALLENGE, out.as_bytes(), cb.as_bytes(), ch.as_bytes(), pk.as_bytes(), input]);
    let c = h2(VRF_PREFIX_HASH_TO_SCALAR, &m.to_bytes());
    let s = k + c * sk;
    let mut a = [0u8; 160];
    a[..32].copy_from_slice(input);
    a[32..64].copy_from_slice(out.as_bytes());
    a[64..96].copy_from_slice(cb.as_bytes());
    a[96..128].copy_from_slice(ch.as_bytes());
    a[128..].copy_from_slice(s.as_bytes());
    (pk.to_bytes(), a)
}
pub fn request_data(tag: u8, seed: [u8; 32], program: Pubkey, disc: &[u8], metas: &[(Pubkey, bool, bool)], args: &[u8]) -> Vec<u8> {
    let mut d = vec![0u8; 8];
    d[0] = tag;
    d.extend_from_slice(&seed);
    d.extend_from_slice(program.as_ref());
    d.extend_from_slice(&(disc.len() as u32).to_le_bytes());
    d.extend_from_slice(disc);
    d.extend_from_slice(&(metas.len() as u32).to_le_bytes());
    for (k, s, w) in metas {
        d.extend_from_slice(k.as_ref());
        d.push(*s as u8);
        d.push(*w as u8);
    }
    d.extend_from_slice(&(args.len() as u32).to_le_bytes());
    d.extend_from_slice(args);
    d
}
pub fn slot_hashes(h: u8) -> AccountInfo<'static> {
    let mut d = vec![0u8; 56];
    d[0] = 1;
    for (i, b) in d[8..].iter_mut().enumerate() {
        *b = h.wrapping_add(i as u8);
    }
    account(solana_program::sysvar::slot_hashes::id(), solana_program::sysvar::id(), 1, &d, false, false)
}
/// Accounts of a request by `program` (identity signs) into `q`.
pub fn request_accounts(payer: &AccountInfo<'static>, program: &Pubkey, q: &AccountInfo<'static>) -> Vec<AccountInfo<'static>> {
    vec![
        payer.clone(),
        account(pda(&[b"identity"], program), Pubkey::default(), 0, &[], true, false),
        q.clone(),
        account(Pubkey::default(), Pubkey::default(), 1, &[], false, false),
        slot_hashes(9),
    ]
}
pub fn wallet(n: u8, lamports: u64) -> AccountInfo<'static> {
    account(Pubkey::new_from_array([n; 32]), Pubkey::default(), lamports, &[], true, true)
}
