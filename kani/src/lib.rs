#![recursion_limit = "1024"]
#![allow(dead_code, static_mut_refs, clippy::all)]
extern crate alloc;
pub mod nd;
#[macro_use]
pub mod world;
pub mod h_provide;
pub mod h_request;
pub mod h_purge;
pub mod h_admin;
pub mod h_dispatch;
pub mod h_sdkadm;
pub mod h_qadm;
pub mod h_deleg;
pub mod h_queue;
pub mod h_bad;
#[cfg(not(kani))]
pub mod h_many;
#[cfg(not(kani))]
pub mod list {
    include!(concat!(env!("OUT_DIR"), "/list.rs"));
}
