//! replay HARNESS hex BYTES | replay HARNESS search SEED SECONDS IDS
//! Runs a harness natively on the real crates.  Exit 1 and the failing check if
//! one of its contracts fails, 0 otherwise.
use std::time::{Duration, Instant};
use vhnat::nd::SRC;
fn once(f: fn()) -> Option<String> {
    vhnat::native::reset();
    std::panic::catch_unwind(f).err().map(|e| vhnat::native::message(&e))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = vhnat::list::ALL.iter().find(|x| x.0 == a[1]).expect("harness").1;
    vhnat::native::setup();
    let hit = |m: &str, ids: &str| m.starts_with("CHECK-FAILED") && ids.split(',').any(|i| m.contains(i));
    if a[2] == "hex" {
        let b: Vec<u8> = (0..a[3].len() / 2).map(|i| u8::from_str_radix(&a[3][2 * i..2 * i + 2], 16).unwrap()).collect();
        SRC.with(|s| s.borrow_mut().fixed = Some(b));
        let r = once(f);
        eprintln!("{:?}", r);
        std::process::exit(r.map_or(0, |m| hit(&m, &a[4]) as i32));
    }
    let seed: u64 = a[3].parse().unwrap();
    let end = Instant::now() + Duration::from_secs(a[4].parse().unwrap());
    SRC.with(|s| s.borrow_mut().state = 0x9E3779B97F4A7C15 ^ (seed + 1).wrapping_mul(0xBF58476D1CE4E5B9));
    let mut n = 0u64;
    while Instant::now() < end {
        SRC.with(|s| s.borrow_mut().drawn.clear());
        n += 1;
        if let Some(m) = once(f) {
            if hit(&m, &a[5]) {
                let d = SRC.with(|s| s.borrow().drawn.clone());
                eprintln!("{}\nHEX {}", m, d.iter().map(|b| format!("{b:02x}")).collect::<String>());
                std::process::exit(1);
            }
        }
    }
    let mut r = vhnat::nd::REACHED.with(|r| r.borrow().clone());
    r.sort();
    r.dedup();
    eprintln!("{} runs, no failing input; reached {:?}", n, r);
}
