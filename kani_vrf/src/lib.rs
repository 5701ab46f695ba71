#![allow(dead_code, static_mut_refs, clippy::all)]
#[path = "../../kani/src/nd.rs"]
pub mod nd;
pub mod h_vrf;
