#![recursion_limit = "1024"]
#![allow(dead_code, static_mut_refs, clippy::all)]
extern crate alloc;
#[path = "../../kani/src/nd.rs"]
pub mod nd;
pub mod h_sdk;
pub mod h_rnd;
pub mod h_const;
#[cfg(not(kani))]
pub mod list {
    include!(concat!(env!("OUT_DIR"), "/list.rs"));
}
#[cfg(not(kani))]
pub mod native {
    pub fn message(e: &Box<dyn std::any::Any + Send>) -> String {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    }
    pub fn setup() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    pub fn reset() {}
}
