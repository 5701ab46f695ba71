
use crate::EphemeralVrfError::{InvalidOracleIdentity, QueueNotEmpty};
/// the registry's account and the oracle's own account
pub struct Registry { pub bytes: Seq<u8>, pub len: int, pub created: bool, pub closed: bool }
/// the registry as found
pub uninterp spec fn registered() -> Seq<Pubkey>;
/// its encoding
pub uninterp spec fn enc(s: Seq<Pubkey>) -> Seq<u8>;
pub struct Guard;
impl<'a> AccountInfo<'a> {
    #[verifier::external_body]
    pub fn try_borrow_data(&self) -> (r: Result<Guard, ProgramError>) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_borrow_mut_data(&self) -> (r: Result<Guard, ProgramError>) { unimplemented!() }
}
impl Guard {
    #[verifier::external_body]
    pub fn write(&mut self, b: &Vec<u8>, Tracked(l): Tracked<&mut Registry>)
        ensures final(l).bytes == b@, final(l).len == old(l).len, final(l).len == b@.len(), final(l).created == old(l).created, final(l).closed == old(l).closed
    { unimplemented!() }
}
impl Oracles {
    #[verifier::external_body]
    pub fn try_from_bytes_with_discriminator(b: &Guard) -> (r: Result<Oracles, ProgramError>)
        ensures r is Ok ==> r->Ok_0.oracles@ == registered() && registered().len() < 0x40_0000
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes_with_discriminator(&self) -> (r: Result<Vec<u8>, ProgramError>)
        ensures r is Ok ==> r->Ok_0@ == enc(self.oracles@)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn drop<T>(x: T) { unimplemented!() }
#[verifier::external_body]
pub fn create_record(a: &AccountInfo, system: &AccountInfo, payer: &AccountInfo, owner: &Pubkey, Tracked(l): Tracked<&mut Registry>) -> (r: Result<(), ProgramError>)
    ensures r is Ok ==> *owner == PROGRAM_ID && final(l).created && final(l).closed == old(l).closed && final(l).bytes == old(l).bytes && final(l).len == old(l).len
{ unimplemented!() }
#[verifier::external_body]
pub fn close_account(a: &AccountInfo, to: &AccountInfo, Tracked(l): Tracked<&mut Registry>) -> (r: Result<(), ProgramError>)
    ensures r is Ok ==> final(l).closed && final(l).created == old(l).created && final(l).bytes == old(l).bytes && final(l).len == old(l).len
{ unimplemented!() }
#[verifier::external_body]
pub fn resize_registry(payer: &AccountInfo, a: &AccountInfo, system: &AccountInfo, space: usize, Tracked(l): Tracked<&mut Registry>) -> (r: Result<(), ProgramError>)
    ensures r is Ok ==> final(l).len == space && final(l).closed == old(l).closed && final(l).created == old(l).created && final(l).bytes == old(l).bytes
{ unimplemented!() }
pub open spec fn without(s: Seq<Pubkey>, k: Pubkey) -> Seq<Pubkey> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == k { without(s.drop_last(), k) } else { without(s.drop_last(), k).push(s.last()) }
}
pub proof fn lemma_without(s: Seq<Pubkey>, k: Pubkey) ensures without(s, k).len() <= s.len() decreases s.len()
{ if s.len() > 0 { lemma_without(s.drop_last(), k); } }
/// what `v.retain(|x| x.ne(k))` does
pub fn retain_ne(v: &mut Vec<Pubkey>, k: &Pubkey)
    ensures final(v)@ == without(old(v)@, *k), final(v)@.len() <= old(v)@.len()
{
    let mut w: Vec<Pubkey> = Vec::new();
    let mut i: usize = 0;
    let ghost s = v@;
    while i < v.len()
        invariant 0 <= i <= v@.len(), v@ == s, w@ == without(s.take(i as int), *k),
        decreases v@.len() - i
    {
        proof { assert(s.take(i + 1).drop_last() =~= s.take(i as int)); }
        if v[i].ne(k) { w.push(v[i]); }
        i += 1;
    }
    proof { assert(s.take(i as int) =~= s); lemma_without(s, *k); }
    *v = w;
}
