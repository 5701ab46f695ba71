// Environment of the processors' queue sections: the runtime's and the dependencies' contracts.
#[derive(Clone, Copy)]
pub struct Pubkey { pub b: [u8; 32] }
impl Pubkey {
    #[verifier::external_body]
    pub fn ne(&self, o: &Pubkey) -> (r: bool) ensures r == (*self != *o) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq(&self, o: &Pubkey) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes(self) -> (r: [u8; 32]) ensures r == self.b { unimplemented!() }
    #[verifier::external_body]
    pub fn new_from_array(b: [u8; 32]) -> (r: Pubkey) ensures r.b == b { unimplemented!() }
}
#[verifier::external_body]
pub const DEFAULT_EPHEMERAL_QUEUE: Pubkey = Pubkey { b: [0; 32] };
#[derive(Clone, Copy)]
pub struct AccountInfo<'a> { pub key: &'a Pubkey, pub owner: &'a Pubkey }
impl<'a> AccountInfo<'a> {
    #[verifier::external_body]
    pub fn has_address(&self, k: &Pubkey) -> (r: Result<&Self, ProgramError>) ensures r is Ok <==> *self.key == *k { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct PodRistrettoPoint(pub [u8; 32]);
#[derive(Clone, Copy)]
pub struct PodScalar(pub [u8; 32]);
pub type ProgramResult = Result<(), ProgramError>;
pub struct Clock { pub slot: u64, pub unix_timestamp: i64 }
pub uninterp spec fn the_clock() -> Clock;
impl Clock {
    #[verifier::external_body]
    pub fn get() -> (r: Result<Clock, ProgramError>) ensures r is Ok ==> r->Ok_0 == the_clock() { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Hash { pub b: [u8; 32] }
impl Hash {
    #[verifier::external_body]
    pub fn to_bytes(self) -> (r: [u8; 32]) ensures r == self.b { unimplemented!() }
}
/// stands for the request's hash; what is hashed is the Kani harnesses' business
#[verifier::external_body]
pub fn env_hash() -> Hash { unimplemented!() }
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    where T: core::clone::Clone
    ensures r@ == s@;

/// one cross-program call: what, with which accounts, as whose signer
pub ghost struct Call { pub program: Pubkey, pub metas: Seq<AccountMeta>, pub data: Seq<u8>, pub keys: Seq<Pubkey> }
/// what was paid, by whom, to whom, and what was called
pub struct Ledger { pub paid: Seq<(Pubkey, Pubkey, int)>, pub calls: Seq<Call> }
pub struct Instruction { pub program_id: Pubkey, pub accounts: Vec<AccountMeta>, pub data: Vec<u8> }
pub open spec fn keys(s: Seq<AccountInfo>) -> Seq<Pubkey> { s.map_values(|x: AccountInfo| *x.key) }
#[verifier::external_body]
pub fn invoke_signed(ix: &Instruction, accounts: &Vec<AccountInfo>, Tracked(l): Tracked<&mut Ledger>) -> (r: Result<(), ProgramError>)
    ensures r is Ok ==> final(l).paid == old(l).paid && final(l).calls == old(l).calls.push(Call { program: ix.program_id, metas: ix.accounts@, data: ix.data@, keys: keys(accounts@) })
{ unimplemented!() }
pub uninterp spec fn sha(b: Seq<u8>) -> [u8; 32];
#[verifier::external_body]
pub fn hash(b: &[u8]) -> (r: Hash) ensures r.b == sha(b@) { unimplemented!() }
pub uninterp spec fn identity() -> (Pubkey, u8);
#[verifier::external_body]
pub fn program_identity_pda() -> (r: (Pubkey, u8)) ensures r == identity() { unimplemented!() }
#[verifier::external_body]
pub fn transfer_fee(from: &AccountInfo, to: &AccountInfo, amount: u64, Tracked(l): Tracked<&mut Ledger>) -> (r: Result<(), ProgramError>)
    ensures r is Ok ==> final(l).calls == old(l).calls && final(l).paid == old(l).paid.push((*from.key, *to.key, amount as int))
{ unimplemented!() }

pub uninterp spec fn vrf_ok(pk: PodRistrettoPoint, input: [u8; 32], output: PodRistrettoPoint, c: PodRistrettoPoint, h: PodRistrettoPoint, s: PodScalar) -> bool;
#[verifier::external_body]
pub fn verify_vrf(pk: &PodRistrettoPoint, input: &[u8; 32], output: &PodRistrettoPoint, p: (&PodRistrettoPoint, &PodRistrettoPoint, &PodScalar)) -> (r: bool)
    ensures r == vrf_ok(*pk, *input, *output, *p.0, *p.1, *p.2)
{ unimplemented!() }
/// the key is among the accounts these bytes list
pub open spec fn lists(m: Seq<u8>, k: [u8; 32]) -> bool { exists|i: int| 0 <= i && 33 * i + 33 <= m.len() && #[trigger] m.subrange(33 * i, 33 * i + 32) == k@ }
pub proof fn lemma_flat_at(m: Seq<CompactAccountMeta>, i: int)
    requires 0 <= i < m.len()
    ensures flat(m).len() == 33 * m.len(), flat(m).subrange(33 * i, 33 * i + 32) == m[i].pubkey@
    decreases m.len()
{
    reveal(flat);
    axiom_flat(m);
    axiom_flat(m.drop_last());
    if i < m.len() - 1 {
        lemma_flat_at(m.drop_last(), i);
        assert(flat(m).subrange(33 * i, 33 * i + 32) =~= flat(m.drop_last()).subrange(33 * i, 33 * i + 32));
    } else {
        assert(flat(m).subrange(33 * i, 33 * i + 32) =~= m.last().pubkey@);
    }
}
/// what `m.iter().any(|x| x.pubkey is k)` computes
pub fn any_meta(m: &[CompactAccountMeta], k: &Pubkey) -> (r: bool)
    ensures r == lists(flat(m@), k.b)
{
    let mut i: usize = 0;
    proof { axiom_flat(m@); }
    while i < m.len()
        invariant 0 <= i <= m@.len(), forall|j: int| 0 <= j < i ==> m@[j].pubkey@ != k.b@,
        decreases m@.len() - i
    {
        if id_eq(&m[i].pubkey, &k.b) {
            proof { lemma_flat_at(m@, i as int); assert(flat(m@).subrange(33 * i, 33 * i + 32) == k.b@); }
            return true;
        }
        i += 1;
    }
    proof {
        assert forall|j: int| 0 <= j && 33 * j + 33 <= flat(m@).len() implies #[trigger] flat(m@).subrange(33 * j, 33 * j + 32) != k.b@ by { lemma_flat_at(m@, j); }
    }
    false
}
pub open spec fn cam(x: SerializableAccountMeta) -> CompactAccountMeta { CompactAccountMeta { pubkey: x.pubkey, is_writable: if x.is_writable { 1u8 } else { 0u8 } } }
pub open spec fn compact(m: Seq<SerializableAccountMeta>) -> Seq<CompactAccountMeta> { m.map_values(|x: SerializableAccountMeta| cam(x)) }
/// what `m.iter().map(|x| (*x).into()).collect()` computes
pub fn to_compact(m: &Vec<SerializableAccountMeta>) -> (r: Vec<CompactAccountMeta>)
    ensures r@ == compact(m@)
{
    let mut r: Vec<CompactAccountMeta> = Vec::new();
    let mut i: usize = 0;
    while i < m.len()
        invariant 0 <= i <= m@.len(), r@ == compact(m@.take(i as int)),
        decreases m@.len() - i
    {
        r.push(CompactAccountMeta::from_serializable(m[i]));
        i += 1;
        proof { assert(compact(m@.take(i as int)) =~= compact(m@.take(i - 1)).push(cam(m@[i - 1]))); }
    }
    proof { assert(m@.take(i as int) =~= m@); }
    r
}
pub struct AccountMeta { pub pubkey: Pubkey, pub is_signer: bool, pub is_writable: bool }
pub open spec fn am(x: CompactAccountMeta) -> AccountMeta { AccountMeta { pubkey: Pubkey { b: x.pubkey }, is_signer: false, is_writable: x.is_writable != 0 } }
/// what `v.extend(m.iter().map(|x| x.to_account_meta()))` does
pub fn extend_metas(v: &mut Vec<AccountMeta>, m: &Vec<CompactAccountMeta>)
    ensures final(v)@ == old(v)@ + m@.map_values(|x: CompactAccountMeta| am(x))
{
    let mut i: usize = 0;
    while i < m.len()
        invariant 0 <= i <= m@.len(), v@ == old(v)@ + m@.take(i as int).map_values(|x: CompactAccountMeta| am(x)),
        decreases m@.len() - i
    {
        v.push(m[i].to_account_meta());
        i += 1;
        proof { assert(m@.take(i as int).map_values(|x: CompactAccountMeta| am(x)) =~= m@.take(i - 1).map_values(|x: CompactAccountMeta| am(x)).push(am(m@[i - 1]))); assert(v@ =~= old(v)@ + m@.take(i as int).map_values(|x: CompactAccountMeta| am(x))); }
    }
    proof { assert(m@.take(i as int) =~= m@); }
}
pub open spec fn expired(e: Ent, now: u64) -> bool { now - e.slot > 240 }
pub open spec fn fee(e: Ent) -> int { if e.prio == 1 { 800_000 } else { 500_000 } }
/// the requests that stay
pub open spec fn keep(s: Seq<Ent>, now: u64) -> Seq<Ent> decreases s.len() {
    if s.len() == 0 { s } else if expired(s.last(), now) { keep(s.drop_last(), now) } else { keep(s.drop_last(), now).push(s.last()) }
}
/// the fees of those that go
pub open spec fn due(s: Seq<Ent>, now: u64) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { due(s.drop_last(), now) + if expired(s.last(), now) { fee(s.last()) } else { 0 } }
}
pub proof fn lemma_due(s: Seq<Ent>, now: u64)
    ensures 0 <= due(s, now) <= 800_000 * s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_due(s.drop_last(), now); } }
