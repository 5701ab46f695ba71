pub struct Sha512;
pub struct Sha256;
