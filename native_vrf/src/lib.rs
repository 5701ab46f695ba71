//! The contracts of the prover and the verifiers checked at run time on the real
//! crates (the curve, the hashes): failing inputs, and a bounded fallback.
#![allow(dead_code, static_mut_refs, clippy::all)]
#[path = "../../kani/src/nd.rs"]
pub mod nd;
pub mod h_vrf;
pub mod list {
    include!(concat!(env!("OUT_DIR"), "/list.rs"));
}
pub mod native {
    pub fn message(e: &Box<dyn std::any::Any + Send>) -> String {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    }
    pub fn setup() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    pub fn reset() {}
}
