// Specifications and lemmas for the queue.  Everything below the marker line of
// the generated file is the text of /repo/api/src/state/queue.rs.
#![verifier::allow(undeclared_external_trait)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens)]
use vstd::prelude::*;
use vstd::std_specs::cmp::OrdSpec;
use core::mem::{size_of, size_of_val};
verus! {

global size_of usize == 8;
global layout QueueItem is size == 96, align == 8;
global layout CompactAccountMeta is size == 33, align == 1;
global layout Queue is size == 12, align == 4;

pub enum ProgramError { InvalidAccountData, AccountDataTooSmall, InvalidArgument, InvalidInstructionData, IncorrectProgramId, MissingRequiredSignature, NotEnoughAccountKeys, InvalidSeeds, ArithmeticOverflow, Custom(u32) }
pub enum EphemeralVrfError { Unauthorized, InvalidOracleIdentity, RandomnessRequestNotFound, InvalidProof, InvalidQueueIndex, QueueNotEmpty, ArgumentSizeTooLarge, InvalidCallbackAccounts, OracleMustProvideInDifferentSlot, Other }
impl From<EphemeralVrfError> for ProgramError {
    #[verifier::external_body]
    fn from(e: EphemeralVrfError) -> ProgramError { ProgramError::Custom(0) }
}

pub assume_specification<T> [core::cmp::min] (a: T, b: T) -> (r: T)
    where T: core::cmp::Ord + core::marker::Destruct
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { b } else { a });
pub assume_specification<T> [core::cmp::max] (a: T, b: T) -> (r: T)
    where T: core::cmp::Ord + core::marker::Destruct
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { a } else { b });
pub assume_specification<T> [<[T]>::fill] (s: &mut [T], v: T)
    where T: core::clone::Clone
    ensures final(s)@.len() == old(s)@.len();

/// the 33 bytes of each meta in turn
#[verifier::opaque]
pub open spec fn flat(m: Seq<CompactAccountMeta>) -> Seq<u8> decreases m.len() {
    if m.len() == 0 { Seq::empty() } else { flat(m.drop_last()) + m.last().pubkey@.push(m.last().is_writable) }
}
pub proof fn axiom_flat(m: Seq<CompactAccountMeta>)
    ensures flat(m).len() == 33 * m.len()
    decreases m.len()
{ reveal(flat); if m.len() > 0 { axiom_flat(m.drop_last()); } }
/// an item as its 96 bytes encode it
pub uninterp spec fn dec(b: Seq<u8>) -> QueueItem;

/// assumed contract of `unsafe { from_raw_parts(metas.as_ptr() as *const u8, n) }`
#[verifier::external_body]
pub fn raw_bytes<'a>(m: &'a [CompactAccountMeta], n: usize) -> (r: &'a [u8])
    requires n == 33 * m@.len()
    ensures r@ == flat(m@), r@.len() == n
{ unimplemented!() }
/// assumed contract of `unsafe { from_raw_parts(bytes.as_ptr() as *const CompactAccountMeta, n) }`
#[verifier::external_body]
pub fn raw_metas<'a>(b: &'a [u8], n: usize) -> (r: &'a [CompactAccountMeta])
    requires b@.len() == 33 * n
    ensures r@.len() == n, flat(r@) == b@
{ unimplemented!() }
#[verifier::external_body]
pub fn metas_size(m: &[CompactAccountMeta]) -> (r: usize)
    ensures r == 33 * m@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn id_eq(a: &[u8; 32], b: &[u8; 32]) -> (r: bool)
    ensures r == (a@ == b@)
{ unimplemented!() }

/// the runtime's limit on account data (10 MiB)
pub open spec fn max_len() -> int { 0xa0_0000 }
pub open spec fn al(x: int) -> int { (x + 7) / 8 * 8 }
pub open spec fn fin(it: QueueItem, p: int) -> int { p + 96 + it.callback_discriminator_len + it.metas_len * 33 + it.args_len }
pub open spec fn nxt(it: QueueItem, p: int) -> int { al(fin(it, p)) }
pub open spec fn at(b: Seq<u8>, p: int) -> QueueItem { dec(b.subrange(p, p + 96)) }

/// the used entries from position p on
pub open spec fn walk(b: Seq<u8>, p: int, end: int) -> Seq<(int, QueueItem)>
    decreases (if p <= end { end - p } else { 0 })
{
    if 0 <= p && p + 96 <= end {
        let it = at(b, p);
        let rest = walk(b, nxt(it, p), end);
        if it.used == 1 { seq![(p, it)].add(rest) } else { rest }
    } else {
        Seq::empty()
    }
}
/// where the walk from p stops
pub open spec fn land(b: Seq<u8>, p: int, end: int) -> int
    decreases (if p <= end { end - p } else { 0 })
{
    if 0 <= p && p + 96 <= end { land(b, nxt(at(b, p), p), end) } else { p }
}
/// the walk from q visits p
pub open spec fn on(b: Seq<u8>, q: int, p: int, end: int) -> bool
    decreases (if q <= end { end - q } else { 0 })
{
    q == p || (0 <= q && q + 96 <= end && q < p && on(b, nxt(at(b, q), q), p, end))
}

pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }

pub struct Ent { pub slot: u64, pub id: [u8; 32], pub prog: [u8; 32], pub prio: u8, pub disc: Seq<u8>, pub metas: Seq<u8>, pub args: Seq<u8> }
pub open spec fn ent(b: Seq<u8>, e: (int, QueueItem)) -> Ent {
    let it = e.1;
    let d = it.callback_discriminator_offset as int;
    let m = it.metas_offset as int;
    let a = it.args_offset as int;
    Ent { slot: it.slot, id: it.id, prog: it.callback_program_id, prio: it.priority_request,
        disc: b.subrange(d, d + it.callback_discriminator_len), metas: b.subrange(m, m + it.metas_len * 33), args: b.subrange(a, a + it.args_len) }
}
/// the entry's payload follows it, before the cursor
pub open spec fn ewf(e: (int, QueueItem), cursor: int) -> bool {
    let (p, it) = e;
    &&& p >= 16
    &&& it.callback_discriminator_offset == p + 96
    &&& it.metas_offset == p + 96 + it.callback_discriminator_len
    &&& it.args_offset == it.metas_offset + it.metas_len * 33
    &&& fin(it, p) <= cursor
}

impl<'a> QueueAccount<'a> {
    pub open spec fn count(&self) -> int { self.header.item_count as int }
    pub open spec fn end(&self) -> int { imin(self.acc@.len() as int, self.header.cursor as int) }
    /// used entries with their positions
    pub open spec fn items(&self) -> Seq<(int, QueueItem)> { walk(self.acc@, 16, self.end()) }
    /// the abstract list: P05
    pub open spec fn list(&self) -> Seq<Ent> { self.items().map_values(|e: (int, QueueItem)| ent(self.acc@, e)) }
    pub open spec fn shape(&self) -> bool {
        &&& 16 <= self.header.cursor <= self.acc@.len()
        &&& land(self.acc@, 16, self.header.cursor as int) == al(self.header.cursor as int)
        &&& forall|i: int| 0 <= i < self.items().len() ==> ewf(#[trigger] self.items()[i], self.header.cursor as int)
    }
    pub open spec fn wf(&self) -> bool {
        self.shape() && self.header.item_count == self.items().len()
    }
}

pub proof fn lemma_al(x: int)
    ensures x <= al(x) <= x + 7, al(x) % 8 == 0, x % 8 == 0 ==> al(x) == x
{}
pub proof fn lemma_al_next(x: int)
    requires x >= 0
    ensures al(al(x)) == al(x)
{}
pub proof fn lemma_nxt(it: QueueItem, p: int)
    ensures nxt(it, p) >= p + 96, nxt(it, p) <= p + 96 + 65535 + 33 * 65535 + 65535 + 7, nxt(it, p) % 8 == 0, nxt(it, p) >= fin(it, p)
{}
/// visiting p, the walk also visits what follows p
pub proof fn lemma_on_snoc(b: Seq<u8>, q: int, p: int, end: int)
    requires on(b, q, p, end), 0 <= p, p + 96 <= end, q >= 0
    ensures on(b, q, nxt(at(b, p), p), end)
    decreases (if q <= end { end - q } else { 0 })
{
    lemma_nxt(at(b, p), p);
    if q == p {
        assert(on(b, nxt(at(b, p), p), nxt(at(b, p), p), end));
    } else {
        lemma_nxt(at(b, q), q);
        lemma_on_snoc(b, nxt(at(b, q), q), p, end);
        lemma_on_le(b, nxt(at(b, q), q), p, end);
    }
}
pub proof fn lemma_on_le(b: Seq<u8>, q: int, p: int, end: int)
    requires on(b, q, p, end)
    ensures q <= p
    decreases (if q <= end { end - q } else { 0 })
{}
pub proof fn lemma_walk_len(b: Seq<u8>, p: int, end: int)
    ensures 0 <= p <= end ==> walk(b, p, end).len() * 96 <= end - p, walk(b, p, end).len() > 0 ==> 0 <= p <= end
    decreases (if p <= end { end - p } else { 0 })
{
    if 0 <= p && p + 96 <= end {
        lemma_nxt(at(b, p), p);
        lemma_walk_len(b, nxt(at(b, p), p), end);
    }
}
/// entries of a walk lie at or after its start
pub proof fn lemma_walk_pos(b: Seq<u8>, p: int, end: int)
    ensures forall|i: int| 0 <= i < walk(b, p, end).len() ==> p <= #[trigger] walk(b, p, end)[i].0 && walk(b, p, end)[i].0 + 96 <= end
    decreases (if p <= end { end - p } else { 0 })
{
    if 0 <= p && p + 96 <= end {
        lemma_nxt(at(b, p), p);
        lemma_walk_pos(b, nxt(at(b, p), p), end);
        let rest = walk(b, nxt(at(b, p), p), end);
        assert forall|i: int| 0 <= i < walk(b, p, end).len() implies p <= #[trigger] walk(b, p, end)[i].0 && walk(b, p, end)[i].0 + 96 <= end by {
            if at(b, p).used == 1 && i > 0 { assert(walk(b, p, end)[i] == rest[i - 1]); }
        }
    }
}
/// one step of a walk, seen through a suffix of the full list
pub proof fn lemma_step(full: Seq<(int, QueueItem)>, k: int, b: Seq<u8>, p: int, end: int)
    requires 0 <= k <= full.len(), full.skip(k) == walk(b, p, end), 0 <= p, p + 96 <= end
    ensures
        at(b, p).used == 1 ==> k < full.len() && full[k] == (p, at(b, p)) && full.skip(k + 1) == walk(b, nxt(at(b, p), p), end),
        at(b, p).used != 1 ==> full.skip(k) == walk(b, nxt(at(b, p), p), end),
{
    let w = walk(b, p, end);
    let rest = walk(b, nxt(at(b, p), p), end);
    if at(b, p).used == 1 {
        assert(w == seq![(p, at(b, p))].add(rest));
        assert(w.len() == 1 + rest.len());
        assert(full.skip(k)[0] == full[k]);
        assert(w[0] == (p, at(b, p)));
        assert(full.skip(k + 1) =~= full.skip(k).skip(1));
        assert(w.skip(1) =~= rest);
    }
}
/// clearing the flag of the k-th entry, at p, removes it from the list
pub proof fn lemma_clear(b: Seq<u8>, c: Seq<u8>, q: int, p: int, end: int)
    requires
        on(b, q, p, end), 0 <= q, 0 <= p, p + 96 <= end, end <= b.len(), c.len() == b.len(),
        at(b, p).used == 1, at(c, p) == (QueueItem { used: at(c, p).used, ..at(b, p) }), at(c, p).used != 1,
        forall|i: int| 0 <= i < b.len() && !(p <= i < p + 96) ==> b[i] == c[i],
    ensures
        exists|k: int| 0 <= k < walk(b, q, end).len() && walk(b, q, end)[k] == (p, at(b, p)) && walk(c, q, end) == #[trigger] walk(b, q, end).remove(k),
        land(c, q, end) == land(b, q, end),
    decreases (if q <= end { end - q } else { 0 })
{
    let w = walk(b, q, end);
    lemma_on_le(b, q, p, end);
    if q == p {
        let n = nxt(at(b, p), p);
        lemma_nxt(at(b, p), p);
        lemma_same(b, c, n, end);
        assert(walk(c, q, end) == walk(b, n, end));
        assert(w == seq![(p, at(b, p))].add(walk(b, n, end)));
        assert(w.remove(0) =~= walk(b, n, end));
        assert(w[0] == (p, at(b, p)));
    } else {
        let n = nxt(at(b, q), q);
        lemma_nxt(at(b, q), q);
        lemma_on_le(b, n, p, end);
        assert(b.subrange(q, q + 96) =~= c.subrange(q, q + 96));
        lemma_clear(b, c, n, p, end);
        let v = walk(b, n, end);
        let k = choose|k: int| 0 <= k < v.len() && v[k] == (p, at(b, p)) && walk(c, n, end) == #[trigger] v.remove(k);
        if at(b, q).used == 1 {
            assert(w == seq![(q, at(b, q))].add(v));
            assert(w[k + 1] == v[k]);
            assert(w.remove(k + 1) =~= seq![(q, at(b, q))].add(v.remove(k)));
            assert(walk(c, q, end) == w.remove(k + 1));
        } else {
            assert(w == v);
            assert(walk(c, q, end) == w.remove(k));
        }
    }
}
pub proof fn lemma_same(b: Seq<u8>, c: Seq<u8>, q: int, end: int)
    requires end <= b.len(), end <= c.len(), q >= 0, forall|i: int| q <= i < end ==> b[i] == c[i]
    ensures walk(b, q, end) == walk(c, q, end), land(b, q, end) == land(c, q, end)
    decreases (if q <= end { end - q } else { 0 })
{
    if q + 96 <= end {
        assert(b.subrange(q, q + 96) =~= c.subrange(q, q + 96));
        lemma_nxt(at(b, q), q);
        lemma_same(b, c, nxt(at(b, q), q), end);
    }
}
/// positions in a walk are distinct and ordered
pub proof fn lemma_sorted(b: Seq<u8>, q: int, end: int)
    ensures forall|i: int, j: int| 0 <= i < j < walk(b, q, end).len() ==> #[trigger] fin(walk(b, q, end)[i].1, walk(b, q, end)[i].0) <= #[trigger] walk(b, q, end)[j].0
    decreases (if q <= end { end - q } else { 0 })
{
    if 0 <= q && q + 96 <= end {
        let n = nxt(at(b, q), q);
        let v = walk(b, n, end);
        let w = walk(b, q, end);
        lemma_nxt(at(b, q), q);
        lemma_sorted(b, n, end);
        lemma_walk_pos(b, n, end);
        if at(b, q).used == 1 {
            assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] fin(w[i].1, w[i].0) <= #[trigger] w[j].0 by {
                assert(w[j] == v[j - 1]);
                if i > 0 { assert(w[i] == v[i - 1]); assert(fin(v[i - 1].1, v[i - 1].0) <= v[j - 1].0); }
            }
        }
    }
}
/// cutting the walk at a visited position after the last used entry keeps the list
pub proof fn lemma_cut(b: Seq<u8>, q: int, l: int, end: int)
    requires on(b, q, l, end), 0 <= q, l <= end, walk(b, l, end).len() == 0
    ensures walk(b, q, l) == walk(b, q, end), land(b, q, l) == l
    decreases (if q <= end { end - q } else { 0 })
{
    lemma_on_le(b, q, l, end);
    if q == l {
        assert(walk(b, q, end) =~= Seq::empty());
        assert(walk(b, q, l) =~= Seq::empty());
    } else {
        let n = nxt(at(b, q), q);
        lemma_nxt(at(b, q), q);
        lemma_on_le(b, n, l, end);
        lemma_cut(b, n, l, end);
    }
}
/// appending one entry where the walk ends
pub proof fn lemma_ext(b: Seq<u8>, c: Seq<u8>, q: int, old_end: int, a: int, end: int)
    requires
        0 <= q, land(b, q, old_end) == a, old_end <= b.len(), end <= c.len(), b.len() == c.len(), old_end <= a, a + 96 <= end,
        forall|i: int| 0 <= i < old_end ==> b[i] == c[i],
    ensures
        walk(c, q, end) == walk(b, q, old_end).add(walk(c, a, end)),
        land(c, q, end) == land(c, a, end),
    decreases (if q <= old_end { old_end - q } else { 0 })
{
    if q + 96 <= old_end {
        let n = nxt(at(b, q), q);
        lemma_nxt(at(b, q), q);
        assert(b.subrange(q, q + 96) =~= c.subrange(q, q + 96));
        lemma_ext(b, c, n, old_end, a, end);
        assert(walk(c, q, end) =~= walk(b, q, old_end).add(walk(c, a, end)));
    } else {
        assert(walk(b, q, old_end) =~= Seq::empty());
        assert(walk(c, q, end) =~= walk(b, q, old_end).add(walk(c, a, end)));
    }
}
/// entries whose bytes did not change denote the same
pub proof fn lemma_ent(b: Seq<u8>, c: Seq<u8>, e: (int, QueueItem), cur: int)
    requires ewf(e, cur), cur <= b.len(), b.len() == c.len(), forall|i: int| e.0 + 96 <= i < fin(e.1, e.0) ==> b[i] == c[i]
    ensures ent(b, e) == ent(c, e)
{
    let it = e.1;
    let d = it.callback_discriminator_offset as int;
    let m = it.metas_offset as int;
    let a = it.args_offset as int;
    assert(b.subrange(d, d + it.callback_discriminator_len) =~= c.subrange(d, d + it.callback_discriminator_len));
    assert(b.subrange(m, m + it.metas_len * 33) =~= c.subrange(m, m + it.metas_len * 33));
    assert(b.subrange(a, a + it.args_len) =~= c.subrange(a, a + it.args_len));
}

/// what clearing the flag at p does to the list
pub proof fn lemma_removed(o: QueueAccount<'_>, n: QueueAccount<'_>, index: int, p: int, end: int)
    requires
        o.acc@.len() == n.acc@.len(), end == o.end(), p >= 16, p + 96 <= end,
        0 <= index < o.items().len(), o.items()[index].0 == p,
        forall|i: int| 0 <= i < o.acc@.len() && !(p <= i < p + 96) ==> o.acc@[i] == n.acc@[i],
        exists|k: int| 0 <= k < o.items().len() && o.items()[k] == (p, at(o.acc@, p)) && walk(n.acc@, 16, end) == #[trigger] o.items().remove(k),
        o.shape() ==> n.shape(), n.items() == walk(n.acc@, 16, end),
    ensures
        n.items() == o.items().remove(index),
        o.shape() ==> n.list() == o.list().remove(index),
{
    let w = o.items();
    let b = o.acc@;
    let c = n.acc@;
    lemma_sorted(b, 16, end);
    lemma_walk_pos(b, 16, end);
    let k = choose|k: int| 0 <= k < w.len() && w[k] == (p, at(b, p)) && walk(c, 16, end) == #[trigger] w.remove(k);
    if k < index { assert(fin(w[k].1, w[k].0) <= w[index].0); }
    if index < k { assert(fin(w[index].1, w[index].0) <= w[k].0); }
    assert(k == index);
    if o.shape() {
        assert forall|i: int| 0 <= i < w.len() && i != index implies ent(b, #[trigger] w[i]) == ent(c, w[i]) by {
            if i < index { assert(fin(w[i].1, w[i].0) <= w[index].0); }
            if i > index { assert(fin(w[index].1, w[index].0) <= w[i].0); }
            assert(ewf(w[i], o.header.cursor as int));
            lemma_ent(b, c, w[i], o.header.cursor as int);
        }
        assert(n.list() =~= o.list().remove(index));
    }
}
