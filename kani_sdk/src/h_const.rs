//! Closed contracts: the constants stated by the SDK and by the API agree.
use crate::{check, reach};
use ephemeral_vrf_api::prelude as a;
use ephemeral_vrf_sdk::{compat, consts as s};

pub fn consts() {
    check!(s::VRF_PROGRAM_ID.to_bytes() == ephemeral_vrf_api::ID.to_bytes(), "P16: the program id agrees");
    check!(ephemeral_vrf_sdk::id().to_bytes() == ephemeral_vrf_api::ID.to_bytes(), "P16: the program id agrees");
    check!(s::VRF_PROGRAM_IDENTITY.to_bytes() == a::program_identity_pda().0.to_bytes(), "P16: the identity address agrees");
    check!(s::IDENTITY == a::IDENTITY, "P16: the identity seed agrees");
    check!(s::DEFAULT_EPHEMERAL_QUEUE.to_bytes() == a::DEFAULT_EPHEMERAL_QUEUE.to_bytes(), "P16: the default ephemeral queue agrees");
    check!(s::DEFAULT_QUEUE.to_bytes() != s::DEFAULT_EPHEMERAL_QUEUE.to_bytes(), "P16: the default queues differ");
    check!(compat::slot_hashes::ID.to_bytes() == solana_program::sysvar::slot_hashes::ID.to_bytes(), "P16: the slot hashes address agrees");
    reach!(true, "evaluated");
}
macro_rules! proof {
    ($h:ident, $f:ident) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind(90)]
        fn $h() {
            $f()
        }
        #[cfg(not(kani))]
        pub fn $h() {
            $f()
        }
    };
}
proof!(k_const, consts);
