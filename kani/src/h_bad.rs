//! Instructions with a payload of the wrong size or the wrong number of accounts:
//! (initialise takes none and ignores it): the worlds of the other contracts, in which the well-formed instruction can succeed.
use crate::world::*;
macro_rules! bad {
    ($h:ident, $f:ident, $m:expr, $body:path) => {
        pub fn $f() {
            unsafe { MALFORM = $m }
            $body()
        }
        world_proof! {
            #[kani::unwind(800)]
            $h = $f
        }
    };
}
bad!(k_bad_init, bad_init, 13, crate::h_admin::init_0);
bad!(k_bad_modify, bad_modify, 15, crate::h_admin::rem_2);
bad!(k_bad_open, bad_open, 15, crate::h_qadm::open_full);
bad!(k_bad_high, bad_high, 13, crate::h_request::req_hi_0);
bad!(k_bad_request, bad_request, 13, crate::h_request::req_lo_0);
bad!(k_bad_provide, bad_provide, 11, crate::h_provide::provide_r_8_1_2);
bad!(k_bad_delegate, bad_delegate, 15, crate::h_deleg::delegate_ok);
bad!(k_bad_undelegate, bad_undelegate, 15, crate::h_deleg::undelegate);
bad!(k_bad_restore, bad_restore, 15, crate::h_deleg::restore);
bad!(k_bad_close, bad_close, 15, crate::h_qadm::close_queue);
bad!(k_bad_purge, bad_purge, 15, crate::h_purge::purge_1);
