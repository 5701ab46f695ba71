//! HKDF as a function of salt, key material and info.
pub struct Hkdf<H> {
    k: [u8; 32],
    _h: core::marker::PhantomData<H>,
}
#[derive(Debug)]
pub struct InvalidLength;
impl<H> Hkdf<H> {
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        Hkdf { k: uf::eval(1, &[&[salt.map_or(0, |s| s.len()) as u8], salt.unwrap_or(&[]), ikm]), _h: core::marker::PhantomData }
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        let n = okm.len();
        if n > 64 {
            return Err(InvalidLength);
        }
        let o = uf::eval(2, &[&self.k, info]);
        let m = if n > 32 { 32 } else { n };
        okm[..m].copy_from_slice(&o[..m]);
        if n > 32 {
            let p = uf::eval(3, &[&self.k, info]);
            okm[32..].copy_from_slice(&p[..n - 32]);
        }
        Ok(())
    }
}
