//! Assumed contract of SHA-256 and HKDF: functions of their input bytes, with
//! arbitrary outputs (drawn by the harness before the run).
#![allow(static_mut_refs)]
pub const CAP: usize = 16;
pub const LEN: usize = 184;
/// evaluations so far, and how many of them had a new input
pub static mut N: usize = 0;
pub static mut NEW: usize = 0;
pub static mut INS: [[u8; LEN]; CAP] = [[0; LEN]; CAP];
pub static mut LENS: [usize; CAP] = [0; CAP];
/// Result of the i-th evaluation if its input is new; the drawn values are never
/// changed, so an equal input gives the first equal evaluation's value.
pub static mut OUTS: [[u8; 32]; CAP] = [[0; 32]; CAP];
/// Set when a run needs more evaluations, or longer inputs, than there is room for.
pub static mut FULL: bool = false;

pub fn eval(dom: u8, parts: &[&[u8]]) -> [u8; 32] {
    let mut b = [0u8; LEN];
    b[0] = dom;
    let mut n = 1;
    for p in parts.iter() {
        if n + p.len() > LEN {
            unsafe { FULL = true }
            return [0; 32];
        }
        b[n..n + p.len()].copy_from_slice(p);
        n += p.len();
    }
    unsafe {
        if N == CAP {
            FULL = true;
            return [0; 32];
        }
        let (mut r, mut new) = (OUTS[N], true);
        let mut i = N;
        while i > 0 {
            i -= 1;
            if LENS[i] == n && INS[i][..n] == b[..n] {
                r = OUTS[i];
                new = false;
            }
        }
        INS[N] = b;
        LENS[N] = n;
        N += 1;
        NEW += new as usize;
        r
    }
}
pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    eval(0, parts)
}
