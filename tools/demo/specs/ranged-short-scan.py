PROP = 'P14'
NEEDS = 'randomness whose sixteen most significant bytes all lie above the largest multiple of the range size (for 129 values: chance 2^-16)'
BREAKS = 'the ranged helper stops scanning half way and takes the biased fallback although an unbiased byte is there'
EDITS = [('sdk/src/rnd.rs', 'for &b in bytes.iter().rev() {', 'for &b in bytes.iter().rev().take(16) {')]
DEMO = r'''#!/bin/bash
# Builds the demonstration against /repo (the working directory) in a scratch folder and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here"/main.rs "$work/main.rs" || exit 99
cd "$work" || exit 99
{ echo '#[allow(dead_code)] mod rnd {'; cat "$repo/sdk/src/rnd.rs"; echo '}'; cat main.rs; } > all.rs
rustc +1.93.0 --edition 2021 -C debug-assertions=on -o demo all.rs >log 2>&1 || { cat log; exit 98; }
./demo
'''
FILES = {'main.rs': r'''
fn main() {
    for (min, max) in [(0u8, 128u8), (3, 250), (1, 200), (100, 255), (0, 255), (0, 254), (1, 6)] {
        let range = (max - min) as u16 + 1;
        let threshold = 256 / range * range;
        for pos in 0..32usize {
            for v in 0..=255u8 {
                if v as u16 >= threshold { continue }
                let mut b = [255u8; 32];
                b[pos] = v;
                if threshold == 256 { b[31] = v }
                assert_eq!(rnd::random_u8_with_range(&b, min, max), min + (v as u16 % range) as u8, "{min} {max} {pos} {v}");
            }
        }
    }
}
'''}
