use std::{env, fs, path::Path};
fn main() {
    println!("cargo:rerun-if-changed=src");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("list.rs"), "pub const ALL: &[(&str, fn())] = &[(\"h_vrf::k_nat_vrf\", crate::h_vrf::k_nat_vrf as fn()), (\"h_vrf::k_nat_const\", crate::h_vrf::k_nat_const as fn())];\n").unwrap();
}
