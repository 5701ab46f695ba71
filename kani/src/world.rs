//! The world around one instruction: accounts in the runtime's memory layout,
//! the clock, and the ghost log of cross-program calls.  Under Kani the
//! dependencies (PDA derivation, SHA-256, sysvars, the runtime's CPI, logging)
//! are replaced by the assumed contracts written here; natively they are real.
#![allow(static_mut_refs)]
use crate::{check, reach};
use crate::nd::*;
pub use ephemeral_vrf_api::prelude::*;
pub use solana_program::account_info::AccountInfo;
pub use solana_program::instruction::{AccountMeta, Instruction};
pub use solana_program::program_error::ProgramError;
pub use solana_program::pubkey::Pubkey;

pub use solana_system_interface::instruction as sys_ins;

pub type PResult = Result<(), ProgramError>;

/// One account, laid out as the SBF loader lays it out: 4 flag bytes, original
/// length (u32), key, owner, lamports, data length, data.  T = 88 + capacity.
#[repr(C, align(8))]
pub struct Buf<const T: usize>(pub [u8; T]);

pub const H: usize = 88;

impl<const T: usize> Buf<T> {
    pub fn new(key: Pubkey, owner: Pubkey, lamports: u64) -> Self {
        let mut b = Buf([0; T]);
        b.0[8..40].copy_from_slice(key.as_array());
        b.0[40..72].copy_from_slice(owner.as_array());
        b.0[72..80].copy_from_slice(&lamports.to_le_bytes());
        b
    }
    pub fn data(&mut self) -> &mut [u8] {
        &mut self.0[H..]
    }
    pub fn key(&self) -> Pubkey {
        let mut k = [0; 32];
        k.copy_from_slice(&self.0[8..40]);
        Pubkey::new_from_array(k)
    }
    pub fn owner(&self) -> Pubkey {
        let mut k = [0; 32];
        k.copy_from_slice(&self.0[40..72]);
        Pubkey::new_from_array(k)
    }
    pub fn raw(&mut self) -> *mut Self {
        self as *mut Self
    }
}

/// Builds the AccountInfo over `b` with `len` data bytes.
pub fn acct<const T: usize>(b: *mut Buf<T>, len: usize, signer: bool, writable: bool) -> AccountInfo<'static> {
    unsafe {
        (&mut (*b).0)[4..8].copy_from_slice(&(len as u32).to_le_bytes());
        (&mut (*b).0)[80..88].copy_from_slice(&(len as u64).to_le_bytes());
        let p = b as *mut u8;
        let key = &*(p.add(8) as *const Pubkey);
        let owner = &*(p.add(40) as *const Pubkey);
        let lam = &mut *(p.add(72) as *mut u64);
        let data = core::slice::from_raw_parts_mut(p.add(88), len);
        AccountInfo::new(key, signer, writable, lam, data, owner, false)
    }
}

pub fn any_key() -> Pubkey {
    Pubkey::new_from_array(any::<[u8; 32]>())
}

/// Balances: the runtime keeps the sum of all of them below 2^64 lamports.
pub fn lamports<const N: usize>() -> [u64; N]
where
    [u64; N]: Draw,
{
    let mut l: [u64; N] = any();
    let mut i = 0;
    while i < N {
        l[i] &= (1 << 61) - 1;
        i += 1;
    }
    l
}

/// Runs one instruction through the program's entry point.
pub fn run_ix(accounts: &[AccountInfo<'static>], data: &[u8]) -> PResult {
    if unsafe { MALFORM } != 0 {
        malformed(accounts, data);
    }
    run_ix1(accounts, data)
}
fn run_ix1(accounts: &[AccountInfo<'static>], data: &[u8]) -> PResult {
    #[cfg(kani)]
    {
        ephemeral_vrf_program::process_instruction(&ephemeral_vrf_api::ID, accounts, data)
    }
    #[cfg(not(kani))]
    {
        // a panic aborts the transaction, like an error
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ephemeral_vrf_program::process_instruction(&ephemeral_vrf_api::ID, accounts, data)
        })) {
            Ok(r) => r,
            Err(e) => {
                let m = native::message(&e);
                if m.starts_with("CHECK-FAILED") || m.starts_with("ASSUMPTION") {
                    std::panic::resume_unwind(e)
                }
                Err(ProgramError::Custom(0xdead))
            }
        }
    }
}

/// Which malformed variants of the instruction are judged instead of it: payload
/// one byte shorter (1) or longer (2), one account more (4), one account less (8).
pub static mut MALFORM: u8 = 0;
fn malformed(accounts: &[AccountInfo<'static>], data: &[u8]) {
    let m = unsafe { MALFORM };
    reach!(true, "malformed");
    if m & 1 != 0 {
        check!(run_ix1(accounts, &data[..data.len() - 1]).is_err(), "P18: a payload that is too short is refused");
    }
    if m & 2 != 0 {
        let mut v = Vec::with_capacity(data.len() + 1);
        v.extend_from_slice(data);
        v.push(any());
        check!(run_ix1(accounts, &v).is_err(), "P18: a payload that is too long is refused");
    }
    if m & 4 != 0 {
        let mut v = Vec::with_capacity(accounts.len() + 1);
        v.extend_from_slice(accounts);
        v.push(accounts[0].clone());
        check!(run_ix1(&v, data).is_err(), "P18: too many accounts are refused");
    }
    if m & 8 != 0 {
        check!(run_ix1(&accounts[..accounts.len() - 1], data).is_err(), "P18: too few accounts are refused");
    }
    // the well-formed instruction is judged elsewhere
    assume(false);
}

// ---------------------------------------------------------------- clock
pub static mut SLOT: u64 = 0;
pub static mut UNIX: i64 = 0;

// ---------------------------------------------------------------- CPI log
pub struct Cpi {
    pub program: Pubkey,
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
    pub infos: Vec<Pubkey>,
    pub seeds: Vec<u8>,
    pub nsigners: usize,
}
pub static mut CPIS: Vec<Cpi> = Vec::new();
pub static mut CPI_FAILS: bool = false;
pub static mut ON_CPI: Option<fn(&Instruction, &[AccountInfo]) -> PResult> = None;

pub fn cpis() -> &'static Vec<Cpi> {
    unsafe { &CPIS }
}

/// Assumed contract of the runtime's CPI: logged; a system-program call has the
/// system program's effect, any other callee is opaque and may fail.
pub fn cpi_model(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> PResult {
    unsafe {
        let mut flat = Vec::new();
        for s in seeds.iter() {
            for p in s.iter() {
                flat.extend_from_slice(p);
            }
        }
        CPIS.push(Cpi {
            program: ix.program_id,
            metas: ix.accounts.clone(),
            data: ix.data.clone(),
            infos: infos.iter().map(|i| *i.key).collect(),
            seeds: flat,
            nsigners: seeds.len(),
        });
        if CPI_FAILS {
            return Err(ProgramError::Custom(77));
        }
        if let Some(f) = ON_CPI {
            f(ix, infos)?
        }
    }
    Ok(())
}

/// Assumed contract of the system program (create, transfer, allocate, assign).
pub fn sys_effects(ix: &Instruction, infos: &[AccountInfo]) -> PResult {
    if ix.program_id != Pubkey::default() {
        return Ok(());
    }
    let bad = Err(ProgramError::Custom(78));
    let d = &ix.data;
    let num = |o: usize| -> u64 {
        let mut b = [0u8; 8];
        b.copy_from_slice(&d[o..o + 8]);
        u64::from_le_bytes(b)
    };
    let mut i = 0;
    while i < ix.accounts.len() {
        check!(infos.len() > i && *infos[i].key == ix.accounts[i].pubkey, "MODEL: account order of a system call");
        i += 1;
    }
    let pay = |from: &AccountInfo, to: &AccountInfo, n: u64| -> PResult {
        let (f, t) = (from.lamports(), to.lamports());
        if !ix.accounts[0].is_signer || f < n || t.checked_add(n).is_none() {
            return Err(ProgramError::Custom(78));
        }
        **from.lamports.borrow_mut() = f - n;
        **to.lamports.borrow_mut() = t + n;
        Ok(())
    };
    let fresh = |a: &AccountInfo| a.data.borrow().len() == 0 && *a.owner == Pubkey::default();
    let grow = |a: &AccountInfo, n: u64| {
        let p = a.data.borrow_mut().as_mut_ptr();
        *a.data.borrow_mut() = unsafe { core::slice::from_raw_parts_mut(p, n as usize) };
    };
    let own = |a: &AccountInfo, o: usize| {
        let mut k = [0u8; 32];
        k.copy_from_slice(&d[o..o + 32]);
        a.assign(&Pubkey::new_from_array(k));
    };
    match d[0] {
        0 => {
            if !fresh(&infos[1]) || infos[1].lamports() != 0 || !ix.accounts[1].is_signer {
                return bad;
            }
            pay(&infos[0], &infos[1], num(4))?;
            grow(&infos[1], num(12));
            own(&infos[1], 20);
        }
        2 => pay(&infos[0], &infos[1], num(4))?,
        8 => {
            if !fresh(&infos[0]) || !ix.accounts[0].is_signer {
                return bad;
            }
            grow(&infos[0], num(4));
        }
        1 => {
            if *infos[0].owner != Pubkey::default() || !ix.accounts[0].is_signer {
                return bad;
            }
            own(&infos[0], 4);
        }
        _ => check!(false, "MODEL: unknown system instruction"),
    }
    Ok(())
}

pub fn min_balance(len: usize) -> u64 {
    (128 + len as u64) * 6960
}

#[cfg(kani)]
pub mod stubs {
    use super::*;

    /// A registered part of an injective function: outputs drawn by the harness
    /// for the inputs it names, fresh and different ones for any other input.
    pub struct Reg<const C: usize, const L: usize> {
        pub n: usize,
        pub ins: [[u8; L]; C],
        pub lens: [usize; C],
        pub outs: [[u8; 32]; C],
        pub bumps: [u8; C],
    }
    impl<const C: usize, const L: usize> Reg<C, L> {
        pub const fn new() -> Self {
            Reg { n: 0, ins: [[0; L]; C], lens: [0; C], outs: [[0; 32]; C], bumps: [0; C] }
        }
        pub fn put(&mut self, input: &[u8; L], len: usize, out: &[u8; 32], bump: u8) {
            let mut i = 0;
            while i < self.n {
                kani::assume(self.outs[i] != *out);
                i += 1;
            }
            self.ins[self.n] = *input;
            self.lens[self.n] = len;
            self.outs[self.n] = *out;
            self.bumps[self.n] = bump;
            self.n += 1;
        }
        pub fn get(&self, input: &[u8; L], len: usize) -> ([u8; 32], u8) {
            let mut o: [u8; 32] = kani::any();
            let mut b: u8 = kani::any();
            let mut i = 0;
            while i < self.n {
                kani::assume(self.outs[i] != o);
                i += 1;
            }
            let mut i = 0;
            while i < self.n {
                if self.lens[i] == len && self.ins[i] == *input {
                    o = self.outs[i];
                    b = self.bumps[i];
                }
                i += 1;
            }
            (o, b)
        }
    }
    pub fn cat<const L: usize>(parts: &[&[u8]], tail: Option<&[u8; 32]>) -> ([u8; L], usize) {
        let mut b = [0u8; L];
        let mut n = 0;
        for p in parts.iter() {
            b[n..n + p.len()].copy_from_slice(p);
            n += p.len();
        }
        if let Some(t) = tail {
            b[n..n + 32].copy_from_slice(t);
            n += 32;
        }
        (b, n)
    }
    pub static mut PDAS: Reg<6, 96> = Reg::new();
    pub fn find_pda(seeds: &[&[u8]], program_id: &Pubkey) -> (Pubkey, u8) {
        let (b, n) = cat::<96>(seeds, Some(program_id.as_array()));
        let (k, bump) = unsafe { PDAS.get(&b, n) };
        (Pubkey::new_from_array(k), bump)
    }
    pub static mut HASHES: Reg<4, 160> = Reg::new();
    pub fn hashv(parts: &[&[u8]]) -> solana_program::hash::Hash {
        let (b, n) = cat::<160>(parts, None);
        solana_program::hash::Hash::new_from_array(unsafe { HASHES.get(&b, n) }.0)
    }
    pub fn hash(v: &[u8]) -> solana_program::hash::Hash {
        hashv(&[v])
    }
    pub fn clock_get() -> Result<solana_program::clock::Clock, ProgramError> {
        unsafe {
            Ok(solana_program::clock::Clock { slot: SLOT, unix_timestamp: UNIX, ..Default::default() })
        }
    }
    pub fn rent_get() -> Result<solana_program::rent::Rent, ProgramError> {
        Ok(solana_program::rent::Rent::default())
    }
    pub fn rent_min(_r: &solana_program::rent::Rent, len: usize) -> u64 {
        min_balance(len)
    }
    /// AccountInfo::resize: sets the length; bytes beyond the old length are zero
    /// already in every harness.  A non-zero new length must be the expected one.
    pub struct Ai<'a>(core::marker::PhantomData<&'a ()>);
    pub static mut RESIZE_TO: usize = 0;
    pub static mut RESIZES: usize = 0;
    impl<'a> Ai<'a> {
        pub fn resize(a: &AccountInfo<'a>, n: usize) -> Result<(), ProgramError> {
            let mut d = a.try_borrow_mut_data()?;
            let p = d.as_mut_ptr();
            let m = if n == 0 {
                0
            } else {
                unsafe {
                    check!(n == RESIZE_TO, "P10 P11: the account gets the size its contents need");
                    RESIZES += 1;
                    RESIZE_TO
                }
            };
            *d = unsafe { core::slice::from_raw_parts_mut(p, m) };
            Ok(())
        }
    }
    /// The system program's instruction encodings (solana-system-interface).
    fn sys_ix<const N: usize>(d: [u8; N], metas: Vec<AccountMeta>) -> Instruction {
        Instruction { program_id: Pubkey::default(), accounts: metas, data: d.to_vec() }
    }
    pub fn ix_create(from: &Pubkey, to: &Pubkey, lamports: u64, space: u64, owner: &Pubkey) -> Instruction {
        let mut d = [0u8; 52];
        d[4..12].copy_from_slice(&lamports.to_le_bytes());
        d[12..20].copy_from_slice(&space.to_le_bytes());
        d[20..].copy_from_slice(owner.as_array());
        sys_ix(d, vec![AccountMeta::new(*from, true), AccountMeta::new(*to, true)])
    }
    pub fn ix_transfer(from: &Pubkey, to: &Pubkey, lamports: u64) -> Instruction {
        let mut d = [0u8; 12];
        d[0] = 2;
        d[4..12].copy_from_slice(&lamports.to_le_bytes());
        sys_ix(d, vec![AccountMeta::new(*from, true), AccountMeta::new(*to, false)])
    }
    pub fn ix_allocate(a: &Pubkey, space: u64) -> Instruction {
        let mut d = [0u8; 12];
        d[0] = 8;
        d[4..12].copy_from_slice(&space.to_le_bytes());
        sys_ix(d, vec![AccountMeta::new(*a, true)])
    }
    pub fn ix_assign(a: &Pubkey, owner: &Pubkey) -> Instruction {
        let mut d = [0u8; 36];
        d[0] = 1;
        d[4..].copy_from_slice(owner.as_array());
        sys_ix(d, vec![AccountMeta::new(*a, true)])
    }
    pub static mut CURVE_KEY: [u8; 32] = [0; 32];
    pub static mut CURVE_OK: bool = false;
    pub fn validate_edwards(p: &solana_curve25519::edwards::PodEdwardsPoint) -> bool {
        unsafe {
            if p.0 == CURVE_KEY {
                CURVE_OK
            } else {
                kani::any()
            }
        }
    }
    pub fn sol_log(_m: &str) {}
    const LOC: &core::panic::Location<'static> = core::panic::Location::caller();
    pub fn trace(_m: &str, e: ProgramError) -> ProgramError {
        e
    }
    pub struct Lc<'a>(core::marker::PhantomData<&'a ()>);
    impl<'a> Lc<'a> {
        pub fn caller() -> &'static core::panic::Location<'static> {
            LOC
        }
    }
    pub fn fmt_format(_a: core::fmt::Arguments<'_>) -> String {
        String::new()
    }
    // verify_vrf as an uninterpreted predicate: the registered tuple has the
    // drawn verdict, any other tuple an arbitrary one.
    use solana_curve25519::ristretto::PodRistrettoPoint as Pt;
    use solana_curve25519::scalar::PodScalar as Sc;
    pub static mut VRF_OK: bool = false;
    pub static mut VRF_PK: [u8; 32] = [0; 32];
    pub static mut VRF_ARGS: [u8; 160] = [0; 160];
    pub static mut VRF_CALLS: usize = 0;
    pub fn vrf(pk: &Pt, input: &[u8; 32], out: &Pt, p: (&Pt, &Pt, &Sc)) -> bool {
        unsafe {
            VRF_CALLS += 1;
            let same = VRF_PK == pk.0
                && VRF_ARGS[..32] == input[..]
                && VRF_ARGS[32..64] == out.0
                && VRF_ARGS[64..96] == p.0 .0
                && VRF_ARGS[96..128] == p.1 .0
                && VRF_ARGS[128..160] == p.2 .0;
            if same {
                VRF_OK
            } else {
                kani::any()
            }
        }
    }
}
/// The program address of `seeds`: under Kani `key`, drawn by the harness.
pub fn reg_pda(seeds: &[&[u8]], program_id: &Pubkey, key: &[u8; 32], bump: u8) -> (Pubkey, u8) {
    #[cfg(kani)]
    {
        let (b, n) = stubs::cat::<96>(seeds, Some(program_id.as_array()));
        unsafe { stubs::PDAS.put(&b, n, key, bump) };
        (Pubkey::new_from_array(*key), bump)
    }
    #[cfg(not(kani))]
    {
        Pubkey::find_program_address(seeds, program_id)
    }
}
/// The SHA-256 of the concatenation of `parts`: under Kani `out`.
pub fn reg_hash(parts: &[&[u8]], out: &[u8; 32]) -> [u8; 32] {
    #[cfg(kani)]
    {
        let (b, n) = stubs::cat::<160>(parts, None);
        unsafe { stubs::HASHES.put(&b, n, out, 0) };
        *out
    }
    #[cfg(not(kani))]
    {
        solana_program::hash::hashv(parts).to_bytes()
    }
}
#[cfg(kani)]
pub fn aligned_stub(_p: *const (), _a: usize) -> bool {
    true
}

/// A Kani harness over the dependency contracts of this module.
#[macro_export]
macro_rules! world_proof {
    ($(#[$m:meta])* $name:ident = $body:path) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::stub(solana_address::Address::find_program_address, crate::world::stubs::find_pda)]
        #[kani::stub(<solana_program::clock::Clock as solana_program::sysvar::Sysvar>::get, crate::world::stubs::clock_get)]
        #[kani::stub(solana_program::program::invoke_signed_unchecked, crate::world::cpi_model)]
        #[kani::stub(solana_program::hash::hash, crate::world::stubs::hash)]
        #[kani::stub(solana_program::hash::hashv, crate::world::stubs::hashv)]
        #[kani::stub(solana_program::log::sol_log, crate::world::stubs::sol_log)]
        #[kani::stub(alloc::fmt::format, crate::world::stubs::fmt_format)]
        #[kani::stub(ephemeral_vrf_api::verify::verify_vrf, crate::world::stubs::vrf)]
        #[kani::stub(bytemuck::internal::is_aligned_to, crate::world::aligned_stub)]
        #[kani::stub(<solana_program::rent::Rent as solana_program::sysvar::Sysvar>::get, crate::world::stubs::rent_get)]
        #[kani::stub(solana_program::rent::Rent::minimum_balance, crate::world::stubs::rent_min)]
        #[kani::stub(solana_account_info::AccountInfo::resize, crate::world::stubs::Ai::resize)]
        #[kani::stub(solana_curve25519::edwards::validate_edwards, crate::world::stubs::validate_edwards)]
        #[kani::stub(core::panic::Location::caller, crate::world::stubs::Lc::caller)]
        #[kani::stub(crate::world::sys_ins::create_account, crate::world::stubs::ix_create)]
        #[kani::stub(crate::world::sys_ins::transfer, crate::world::stubs::ix_transfer)]
        #[kani::stub(crate::world::sys_ins::allocate, crate::world::stubs::ix_allocate)]
        #[kani::stub(crate::world::sys_ins::assign, crate::world::stubs::ix_assign)]
        $(#[$m])*
        fn $name() {
            $body()
        }
        #[cfg(not(kani))]
        pub fn $name() {
            $body()
        }
    };
}

#[cfg(not(kani))]
pub mod native {
    use super::*;
    use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, Scalar};
    use solana_program::program_stubs::SyscallStubs;

    pub fn message(e: &Box<dyn std::any::Any + Send>) -> String {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    }
    struct Stubs;
    impl SyscallStubs for Stubs {
        fn sol_log(&self, _m: &str) {}
        fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> PResult {
            cpi_model(ix, infos, seeds)
        }
        fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
            unsafe { *(p as *mut solana_program::clock::Clock) = solana_program::clock::Clock { slot: SLOT, unix_timestamp: UNIX, ..Default::default() } };
            0
        }
        fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
            unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
            0
        }
        fn sol_get_sysvar(&self, id: *const u8, p: *mut u8, off: u64, len: u64) -> u64 {
            let id = unsafe { *(id as *const [u8; 32]) };
            let bytes = if id == solana_program::sysvar::clock::id().to_bytes() {
                let mut c = Vec::new();
                unsafe {
                    c.extend_from_slice(&SLOT.to_le_bytes());
                    c.extend_from_slice(&[0; 24]);
                    c.extend_from_slice(&UNIX.to_le_bytes());
                }
                c
            } else {
                let mut c = 3480u64.to_le_bytes().to_vec();
                c.extend_from_slice(&2f64.to_le_bytes());
                c.push(50);
                c
            };
            let (o, l) = (off as usize, len as usize);
            if o + l > bytes.len() {
                return 1;
            }
            unsafe { core::ptr::copy_nonoverlapping(bytes[o..].as_ptr(), p, l) };
            0
        }
    }
    pub fn setup() {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|_| {}));
    }
    pub fn reset() {
        unsafe {
            SLOT = 0;
            UNIX = 0;
            CPIS.clear();
            CPI_FAILS = false;
            ON_CPI = None;
            crate::h_provide::G_ITEM = None;
            crate::h_provide::G_IDX = 0;
            crate::h_provide::G_REMOVED = 0;
        }
    }
    /// An honest proof for `input`: public key and the 160 argument bytes.
    pub fn prove(input: &[u8; 32]) -> ([u8; 32], [u8; 160]) {
        use ephemeral_vrf_api::prelude::*;
        let h2 = |p: &[u8], m: &[u8]| Scalar::from_bytes_mod_order(solana_program::hash::hashv(&[p, m]).to_bytes());
        let sk = Scalar::from(987654321u64);
        let k = Scalar::from(1122334455u64);
        let h = h2(VRF_PREFIX_HASH_TO_POINT, input) * G;
        let (pk, out, cb, ch) = ((sk * G).compress(), (sk * h).compress(), (k * G).compress(), (k * h).compress());
        let m = solana_program::hash::hashv(&[VRF_PREFIX_CHALLENGE, out.as_bytes(), cb.as_bytes(), ch.as_bytes(), pk.as_bytes(), input]);
        let c = h2(VRF_PREFIX_HASH_TO_SCALAR, &m.to_bytes());
        let s = k + c * sk;
        let mut a = [0u8; 160];
        a[..32].copy_from_slice(input);
        a[32..64].copy_from_slice(out.as_bytes());
        a[64..96].copy_from_slice(cb.as_bytes());
        a[96..128].copy_from_slice(ch.as_bytes());
        a[128..].copy_from_slice(s.as_bytes());
        (pk.to_bytes(), a)
    }
}
