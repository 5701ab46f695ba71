//! Contract of the entry point: which processor runs, with what, and rejection
//! of malformed or misdirected instructions before any effect.
use crate::nd::*;
use crate::world::*;
use crate::{check, reach};

#[cfg(kani)]
pub static mut CALLED: u8 = 255;
#[cfg(kani)]
pub static mut RES: bool = false;
#[cfg(kani)]
pub static mut PLEN: usize = 0;
#[cfg(kani)]
pub static mut NCALLS: u8 = 0;
#[cfg(kani)]
fn called(tag: u8, accounts: &[AccountInfo<'_>], data: &[u8]) -> PResult {
    unsafe {
        CALLED = tag;
        NCALLS += 1;
        PLEN = data.len();
        check!(accounts.len() == 1, "P18: the processor sees the accounts of the instruction");
        if RES {
            Ok(())
        } else {
            Err(ProgramError::Custom(5))
        }
    }
}
#[cfg(kani)]
pub mod p {
    use super::*;
    macro_rules! proc {
        ($n:ident, $t:expr) => {
            pub fn $n(a: &[AccountInfo<'_>], d: &[u8]) -> PResult {
                called($t, a, d)
            }
        };
    }
    proc!(ini, 0);
    proc!(modify, 1);
    proc!(iq, 2);
    proc!(prov, 4);
    proc!(del, 5);
    proc!(und, 6);
    proc!(close, 7);
    proc!(purge, 9);
    proc!(pund, 196);
    pub fn req(a: &[AccountInfo<'_>], d: &[u8], high: bool) -> PResult {
        called(if high { 3 } else { 8 }, a, d)
    }
}
#[cfg(kani)]
pub fn dispatch() {
    let pid: [u8; 32] = any();
    let data: [u8; 12] = any();
    let n: usize = any();
    assume(n <= 12);
    unsafe { RES = any() }
    let mut b = Buf::<H>::new(Pubkey::default(), Pubkey::default(), 1);
    let accounts = [acct(b.raw(), 0, true, true)];
    let r = ephemeral_vrf_program::process_instruction(&Pubkey::new_from_array(pid), &accounts, &data[..n]);
    let known = data[0] <= 9 || data[0] == 196;
    let good = pid == ephemeral_vrf_api::ID.to_bytes() && n >= 8 && known;
    reach!(r.is_ok(), "dispatched");
    unsafe {
        if good {
            check!(NCALLS == 1 && CALLED == data[0], "P18: the tag reaches the processor of exactly that operation");
            check!(PLEN == n - 8, "P18: the payload is what follows the header");
            check!(r.is_ok() == RES, "P18: the processor's verdict is returned");
        } else {
            check!(NCALLS == 0 && r.is_err(), "P18: a misdirected, short or unknown instruction is rejected");
        }
    }
}
#[cfg(kani)]
#[kani::proof]
#[kani::stub(ephemeral_vrf_program::initialize::process_initialize, p::ini)]
#[kani::stub(ephemeral_vrf_program::modify_oracles::process_modify_oracles, p::modify)]
#[kani::stub(ephemeral_vrf_program::initialize_oracle_queue::process_initialize_oracle_queue, p::iq)]
#[kani::stub(ephemeral_vrf_program::request_randomness::process_request_randomness, p::req)]
#[kani::stub(ephemeral_vrf_program::provide_randomness::process_provide_randomness, p::prov)]
#[kani::stub(ephemeral_vrf_program::delegate_oracle_queue::process_delegate_oracle_queue, p::del)]
#[kani::stub(ephemeral_vrf_program::undelegate_oracle_queue::process_undelegate_oracle_queue, p::und)]
#[kani::stub(ephemeral_vrf_program::process_undelegation::process_undelegation, p::pund)]
#[kani::stub(ephemeral_vrf_program::close_oracle_queue::process_close_oracle_queue, p::close)]
#[kani::stub(ephemeral_vrf_program::purge_expired_requests::process_purge_expired_requests, p::purge)]
#[kani::unwind(40)]
pub fn k_dispatch() {
    dispatch()
}
