
#[verifier::external_body]
pub const PROGRAM_ID: Pubkey = Pubkey { b: [0; 32] };
/// the oracle's record, if the account is one
#[verifier::external_body]
pub fn record<'b>(o: &'b mut Oracle) -> (r: Result<&'b Oracle, ProgramError>)
    ensures *final(o) == *old(o), r is Ok ==> *r->Ok_0 == *old(o)
{ unimplemented!() }
#[verifier::external_body]
pub fn record_mut<'b>(o: &'b mut Oracle) -> (r: Result<&'b mut Oracle, ProgramError>)
    ensures r is Ok ==> *(r->Ok_0) == *old(o) && *final(o) == *final(r->Ok_0)
{ unimplemented!() }
