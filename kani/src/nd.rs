//! Value source: `kani::any` under Kani, the verifier's counterexample natively.
#[cfg(kani)]
mod imp {
    pub use kani::Arbitrary as Draw;
    pub fn any<T: kani::Arbitrary>() -> T {
        kani::any()
    }
    pub fn any_hint<const N: usize>(_h: [u8; N]) -> [u8; N] {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    #[macro_export]
    macro_rules! check {
        ($c:expr, $m:expr) => {
            kani::assert($c, $m)
        };
    }
    #[macro_export]
    macro_rules! reach {
        ($c:expr, $m:expr) => {
            kani::cover!($c, $m)
        };
    }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    /// Native value source: a fixed byte stream (the verifier's counterexample),
    /// or a pseudo-random one biased towards boundary values.
    pub struct Src {
        pub fixed: Option<Vec<u8>>,
        pub at: usize,
        pub state: u64,
        pub drawn: Vec<u8>,
    }
    thread_local! {
        pub static SRC: RefCell<Src> = const { RefCell::new(Src { fixed: None, at: 0, state: 1, drawn: Vec::new() }) };
        pub static REACHED: RefCell<Vec<&'static str>> = const { RefCell::new(Vec::new()) };
    }
    impl Src {
        fn rnd(&mut self) -> u64 {
            self.state ^= self.state << 13;
            self.state ^= self.state >> 7;
            self.state ^= self.state << 17;
            self.state
        }
        fn take(&mut self, out: &mut [u8], hint: Option<&[u8]>) {
            if let Some(f) = &self.fixed {
                for b in out.iter_mut() {
                    *b = f.get(self.at).copied().unwrap_or(0);
                    self.at += 1;
                }
            } else {
                let r = self.rnd();
                let n = out.len();
                for b in out.iter_mut() {
                    *b = 0;
                }
                match r % 8 {
                    0 => {}
                    1 => out[0] = 1,
                    2 => {
                        let k = self.rnd();
                        out[0] = k as u8;
                    }
                    3 => {
                        let k = [239u64, 240, 241, 200, 199, 800_000, 500_000, 799_999, 499_999][self.rnd() as usize % 9];
                        for (b, v) in out.iter_mut().zip(k.to_le_bytes()) {
                            *b = v;
                        }
                    }
                    4 if n <= 8 => {
                        for b in out.iter_mut() {
                            *b = 255;
                        }
                    }
                    5 if n == 8 => {
                        let k = 1_000_000_000 + self.rnd() % 1000;
                        out.copy_from_slice(&k.to_le_bytes());
                    }
                    _ => {
                        for b in out.iter_mut() {
                            *b = self.rnd() as u8;
                        }
                    }
                }
                if let Some(h) = hint {
                    if self.rnd() % 4 != 0 {
                        out.copy_from_slice(h);
                    }
                }
            }
            self.drawn.extend_from_slice(out);
        }
    }
    pub trait Nd: Sized {
        fn nd() -> Self;
    }
    pub fn bytes<const N: usize>(hint: Option<&[u8]>) -> [u8; N] {
        let mut r = [0u8; N];
        SRC.with(|s| s.borrow_mut().take(&mut r, hint));
        r
    }
    macro_rules! ints { ($($t:ty)*) => { $(
        impl Nd for $t { fn nd() -> Self { <$t>::from_le_bytes(bytes(None)) } }
        impl<const N: usize> Nd for [$t; N] { fn nd() -> Self {
            const S: usize = core::mem::size_of::<$t>();
            let mut r = [0 as $t; N];
            if S == 1 {
                let b = bytes::<N>(None);
                for (x, y) in r.iter_mut().zip(b) { *x = y as $t; }
            } else {
                for x in r.iter_mut() { *x = <$t>::nd(); }
            }
            r
        } }
    )* } }
    ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64);
    impl<const M: usize, const N: usize> Nd for [[u8; M]; N] {
        fn nd() -> Self {
            let mut r = [[0u8; M]; N];
            for x in r.iter_mut() {
                *x = <[u8; M]>::nd();
            }
            r
        }
    }
    impl Nd for bool {
        fn nd() -> Self {
            let r = SRC.with(|s| { let mut s = s.borrow_mut(); if s.fixed.is_none() { let b = (s.rnd() % 12 != 0) as u8; s.drawn.push(b); Some(b == 1) } else { None } });
            r.unwrap_or_else(|| bytes::<1>(None)[0] & 1 == 1)
        }
    }
    impl<const N: usize> Nd for [bool; N] {
        fn nd() -> Self {
            let mut r = [false; N];
            for x in r.iter_mut() {
                *x = bool::nd();
            }
            r
        }
    }
    pub use self::Nd as Draw;
    pub fn any<T: Nd>() -> T {
        T::nd()
    }
    /// like any(); the native search often picks `h`
    pub fn any_hint<const N: usize>(h: [u8; N]) -> [u8; N] {
        bytes::<N>(Some(&h))
    }
    pub fn assume(b: bool) {
        if !b {
            panic!("ASSUMPTION-NOT-MET")
        }
    }
    #[macro_export]
    macro_rules! check {
        ($c:expr, $m:expr) => {
            if !$c {
                panic!("CHECK-FAILED: {}", $m)
            }
        };
    }
    #[macro_export]
    macro_rules! reach {
        ($c:expr, $m:expr) => {
            if $c {
                $crate::nd::REACHED.with(|r| r.borrow_mut().push($m))
            }
        };
    }
}
pub use imp::*;
