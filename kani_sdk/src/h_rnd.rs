//! Contracts of the SDK randomness helpers: complete, no bound on any input.
use crate::nd::*;
use crate::{check, reach};
use ephemeral_vrf_sdk::rnd::*;

/// Every range: inside, never panics, decided by one byte below the threshold.
pub fn range_in() {
    let r: [u8; 32] = any();
    let lo: u8 = any();
    let hi: u8 = any();
    assume(lo <= hi);
    let v = random_u8_with_range(&r, lo, hi);
    check!(lo <= v && v <= hi, "P14: the result lies in the inclusive range");
    reach!(v == 7, "a value");
}
/// The deciding position depends only on which bytes are below the threshold:
/// replacing the rejected bytes and every accepted byte but one leaves it.
pub fn range_uniform() {
    let r: [u8; 32] = any();
    let lo: u8 = any();
    let hi: u8 = any();
    assume(lo <= hi);
    let n = (hi - lo) as u16 + 1;
    let t = 256 / n * n;
    // scanning order, probed: which of 32 accepted bytes decides
    let mut probe = [0u8; 32];
    let mut i = 0;
    while i < 32 {
        probe[i] = i as u8;
        i += 1;
    }
    let first = random_u8_with_range(&probe, 0, 31);
    check!(first == 0 || first == 31, "P14: the bytes are scanned in order");
    let mut at = 32;
    let mut i = 0;
    while i < 32 {
        if (r[i] as u16) < t && (first == 31 || at == 32) {
            at = i;
        }
        i += 1;
    }
    assume(at < 32);
    reach!(at == 3, "an early byte decides");
    let v = random_u8_with_range(&r, lo, hi);
    check!(v == lo + (r[at] as u16 % n) as u8, "P14: the deciding byte alone is folded evenly onto the range");
}
/// A helper selecting distinct bytes: positions probed concretely, then for all inputs.
macro_rules! select {
    ($h:ident, $f:ident, $fun:path, $n:expr) => {
        pub fn $f() {
            let mut probe = [0u8; 32];
            let mut i = 0;
            while i < 32 {
                probe[i] = i as u8;
                i += 1;
            }
            let at = $fun(&probe).to_le_bytes();
            let mut i = 0;
            while i < $n {
                check!(at[i] < 32, "P14: the result consists of bytes of the randomness");
                let mut j = 0;
                while j < i {
                    check!(at[i] != at[j], "P14: every byte of the result is a different byte of the randomness");
                    j += 1;
                }
                i += 1;
            }
            let r: [u8; 32] = any();
            let v = $fun(&r).to_le_bytes();
            let w = $fun(&r).to_le_bytes();
            reach!(v[0] == 77, "value");
            let mut i = 0;
            while i < $n {
                check!(v[i] == r[at[i] as usize % 32], "P14: every value is equally likely");
                check!(v[i] == w[i], "P14: a function of the randomness");
                i += 1;
            }
        }
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind(34)]
        fn $h() {
            $f()
        }
        #[cfg(not(kani))]
        pub fn $h() {
            $f()
        }
    };
}
select!(k_u8, sel_u8, random_u8, 1);
select!(k_u32, sel_u32, random_u32, 4);
select!(k_i32, sel_i32, random_i32, 4);
select!(k_u64, sel_u64, random_u64, 8);
select!(k_i64, sel_i64, random_i64, 8);
/// One bit of one byte, possibly inverted.
pub fn boolean() {
    let base = random_bool(&[0; 32]);
    let mut at = 32;
    let mut bit = 0;
    let mut i = 0;
    while i < 32 {
        let mut b = 0;
        while b < 8 {
            let mut p = [0u8; 32];
            p[i] = 1 << b;
            if random_bool(&p) != base {
                check!(at == 32, "P14: one bit decides");
                at = i;
                bit = b;
            }
            b += 1;
        }
        i += 1;
    }
    check!(at < 32, "P14: not constant");
    let r: [u8; 32] = any();
    let v = random_bool(&r);
    reach!(v, "true");
    check!(v == (base != ((r[at % 32] >> bit) & 1 == 1)), "P14: both values equally likely");
}
macro_rules! proof {
    ($h:ident, $f:ident) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind(34)]
        fn $h() {
            $f()
        }
        #[cfg(not(kani))]
        pub fn $h() {
            $f()
        }
    };
}
proof!(k_range_in, range_in);
proof!(k_range_uniform, range_uniform);
proof!(k_bool, boolean);
