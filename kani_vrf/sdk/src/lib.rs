//! The part of solana-sdk the prover uses: SHA-256 (a function) and key bytes.
pub mod hash {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Hash([u8; 32]);
    impl Hash {
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn as_bytes(&self) -> &[u8; 32] {
            &self.0
        }
    }
    impl AsRef<[u8]> for Hash {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    pub fn hash(v: &[u8]) -> Hash {
        Hash(uf::sha(&[v]))
    }
    pub fn hashv(v: &[&[u8]]) -> Hash {
        Hash(uf::sha(v))
    }
}
pub mod signature {
    pub struct Keypair(pub [u8; 64]);
    impl Keypair {
        pub fn to_bytes(&self) -> [u8; 64] {
            self.0
        }
    }
}
