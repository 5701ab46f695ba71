//! Contract of the request builders of the client SDK.
use crate::nd::*;
use crate::{check, reach};
use ephemeral_vrf_sdk::instructions::*;
use ephemeral_vrf_sdk::types::SerializableAccountMeta;
use ephemeral_vrf_sdk::Pubkey as SdkKey;
use solana_program::pubkey::Pubkey;

/// The identity PDA of the one program named by the harness; arbitrary otherwise.
#[cfg(kani)]
pub mod stubs {
    use super::*;
    pub static mut PROG: [u8; 32] = [0; 32];
    pub static mut PDA: [u8; 32] = [0; 32];
    pub fn find_pda(seeds: &[&[u8]], program_id: &Pubkey) -> (Pubkey, u8) {
        let hit = seeds.len() == 1 && *seeds[0] == *b"identity" && program_id.to_bytes() == unsafe { PROG };
        (Pubkey::new_from_array(if hit { unsafe { PDA } } else { kani::any() }), kani::any())
    }
}

pub fn request<const D: usize, const M: usize, const A: usize, const REGULAR: bool, const NONE: bool>() {
    let payer: [u8; 32] = any();
    let queue: [u8; 32] = any();
    let prog: [u8; 32] = any();
    let seed: [u8; 32] = any();
    let disc: [u8; D] = any();
    let mk: [[u8; 32]; M] = any();
    // privileges in turn (concrete: keeps the decoded list's shape concrete)
    let mut ms = [false; M];
    let mut mw = [false; M];
    let mut i = 0;
    while i < M {
        ms[i] = (i + REGULAR as usize) / 2 % 2 == 0;
        mw[i] = (i + REGULAR as usize) % 2 == 0;
        i += 1;
    }
    let args: [u8; A] = any();
    let pda: [u8; 32] = any();
    #[cfg(kani)]
    unsafe {
        stubs::PROG = prog;
        stubs::PDA = pda;
    }
    #[cfg(not(kani))]
    let pda = {
        let _ = pda;
        Pubkey::find_program_address(&[b"identity"], &Pubkey::new_from_array(prog)).0.to_bytes()
    };
    let mut metas = Vec::new();
    let mut i = 0;
    while i < M {
        metas.push(SerializableAccountMeta { pubkey: SdkKey::new_from_array(mk[i]), is_signer: ms[i], is_writable: mw[i] });
        i += 1;
    }
    let p = RequestRandomnessParams {
        payer: SdkKey::new_from_array(payer),
        oracle_queue: SdkKey::new_from_array(queue),
        callback_program_id: SdkKey::new_from_array(prog),
        callback_discriminator: disc.to_vec(),
        accounts_metas: if NONE { None } else { Some(metas) },
        caller_seed: seed,
        callback_args: if NONE { None } else { Some(args.to_vec()) },
    };
    let ix = if REGULAR { create_request_regular_randomness_ix(p) } else { create_request_randomness_ix(p) };
    reach!(ix.data.len() > 8, "built");
    check!(ix.program_id.to_bytes() == ephemeral_vrf_api::ID.to_bytes(), "P13 P16: program id");
    check!(ix.accounts.len() == 5, "P13: account count");
    let a = |i: usize, k: &[u8; 32], s: bool, w: bool| ix.accounts[i].pubkey.to_bytes() == *k && ix.accounts[i].is_signer == s && ix.accounts[i].is_writable == w;
    check!(a(0, &payer, true, true), "P13: payer signs and pays");
    check!(a(1, &pda, true, false), "P13: callback program identity signs");
    check!(a(2, &queue, false, true), "P13: queue is writable");
    check!(a(3, &[0; 32], false, false), "P13: system program");
    check!(a(4, &solana_program::sysvar::slot_hashes::ID.to_bytes(), false, false), "P13: slot hashes");
    let (m, n) = if NONE { (0, 0) } else { (M, A) };
    check!(ix.data.len() == 8 + 32 + 32 + 4 + D + 4 + 34 * m + 4 + n, "P13: data length");
    let tag = if REGULAR { ephemeral_vrf_api::prelude::EphemeralVrfInstruction::RequestRandomness } else { ephemeral_vrf_api::prelude::EphemeralVrfInstruction::RequestHighPriorityRandomness };
    check!(ix.data[0] == tag as u8 && ix.data[1..8] == [0; 7], "P13: instruction tag");
    // what the program decodes from it
    let d = ephemeral_vrf_api::prelude::RequestRandomness::try_from_bytes(&ix.data[8..]);
    match d {
        Err(_) => check!(false, "P13: the payload decodes on chain"),
        Ok(d) => {
            check!(d.caller_seed == seed && d.callback_program_id.to_bytes() == prog, "P13: seed and program decode to the given ones");
            check!(d.callback_discriminator[..] == disc[..], "P13: discriminator decodes to the given one");
            check!(d.callback_accounts_metas.len() == m && d.callback_args.len() == n, "P13: lengths decode to the given ones");
            let mut i = 0;
            while i < m {
                let x = &d.callback_accounts_metas[i];
                check!(x.pubkey == mk[i] && x.is_signer == ms[i] && x.is_writable == mw[i], "P13: accounts decode to the given ones");
                i += 1;
            }
            check!(d.callback_args[..] == args[..n], "P13: arguments decode to the given ones");
        }
    }
}
macro_rules! sdk {
    ($h:ident, $f:ident, $d:expr, $m:expr, $a:expr, $r:expr, $n:expr) => {
        pub fn $f() {
            request::<$d, $m, $a, $r, $n>()
        }
        #[cfg(kani)]
        #[kani::proof]
        #[kani::stub(solana_address::Address::find_program_address, stubs::find_pda)]
        #[kani::unwind(200)]
        fn $h() {
            $f()
        }
        #[cfg(not(kani))]
        pub fn $h() {
            $f()
        }
    };
}
sdk!(k_sdk_hi, sdk_hi, 8, 2, 3, false, false);
sdk!(k_sdk_lo, sdk_lo, 8, 2, 3, true, false);
sdk!(k_sdk_none, sdk_none, 3, 1, 1, true, true);
