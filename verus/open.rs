use crate::EphemeralVrfError::Unauthorized;

/// the queue account: its size, and the index of the queue set up in it
pub struct Space { pub len: int, pub ready: Option<u8> }
#[verifier::external_body]
pub fn data_len(a: &AccountInfo, Tracked(l): Tracked<&Space>) -> (r: usize) ensures r == l.len { unimplemented!() }
#[verifier::external_body]
pub fn create_pda(a: &AccountInfo, owner: &Pubkey, space: usize, system: &AccountInfo, payer: &AccountInfo, Tracked(l): Tracked<&mut Space>) -> (r: Result<(), ProgramError>)
    ensures r is Ok ==> *owner == PROGRAM_ID && final(l).len == space && final(l).ready == old(l).ready
{ unimplemented!() }
#[verifier::external_body]
pub fn resize_pda(payer: &AccountInfo, a: &AccountInfo, system: &AccountInfo, space: usize, Tracked(l): Tracked<&mut Space>) -> (r: Result<(), ProgramError>)
    ensures r is Ok ==> final(l).len == space && final(l).ready == old(l).ready
{ unimplemented!() }
/// writes the account type and an empty queue of this index
#[verifier::external_body]
pub fn set_up(a: &AccountInfo, index: u8, Tracked(l): Tracked<&mut Space>) -> (r: Result<(), ProgramError>)
    ensures r is Ok ==> final(l).len == old(l).len && final(l).ready == Some(index)
{ unimplemented!() }
