"""Harnesses: which contract, which properties, which tier, which limits."""

# (pattern on the loop's mangled name, bound)
STD = [(r'^_RNv\w*21ephemeral_vrf_program', 4), (r'QueueAccount', 5)]


class H:
    def __init__(self, name, props, fn, tier='q', t=500, crate='kani', pats=STD, mem=False, field=1200, replay=None, gb=4,
                 keep=None, panics=False, what='', bounded=None, alt=None, feat='', cost=0, solo=False):
        self.name, self.props, self.fn, self.tier, self.t, self.crate = name, props.split(), fn, tier, t, crate
        self.pats, self.mem, self.field, self.replay, self.gb, self.keep = pats, mem, field, replay or name, gb, keep
        self.feat, self.cost, self.solo = feat, cost, solo
        self.key = name + ('@' + feat if feat else '')
        self.panics, self.what, self.bounded, self.alt = panics, what, bounded, alt


PROV = 'process_provide_randomness'
REQ = 'process_request_randomness'
PUR = 'process_purge_expired_requests'
MOD = 'process_modify_oracles'
INI = 'process_initialize'

TABLE = [
    H('h_provide::k_provide_r_8_1_2', 'P03 P04 P08 P15', PROV, keep=['provide_randomness']),
    H('h_provide::k_provide_m_8_1_2', 'P03 P04 P08 P15', PROV, tier='t', keep=['provide_randomness'], replay='h_provide::k_provide_r_8_1_2'),
    H('h_request::k_req_hi_0', 'P07 P08 P15', REQ, keep=['request_randomness']),
    H('h_request::k_req_lo_0', 'P07 P08 P15', REQ, keep=['request_randomness']),
    H('h_request::k_req_short', 'P07', REQ, keep=['request_randomness']),
    H('h_request::k_req_lo_4', 'P07', REQ, keep=['request_randomness']),
    H('h_request::k_req_d9', 'P07', REQ, keep=['request_randomness']),
    H('h_request::k_req_m20', 'P07', REQ, tier='t', keep=['request_randomness']),
    H('h_request::k_req_m21', 'P07', REQ, keep=['request_randomness']),
    H('h_request::k_req_a512', 'P07', REQ, tier='t', keep=['request_randomness']),
    H('h_request::k_req_a513', 'P07', REQ, keep=['request_randomness']),
    H('h_request::k_req_e1', 'P17', REQ, keep=['request_randomness']),
    H('h_request::k_req_e2_gone', 'P17', REQ, keep=['request_randomness']),
    H('h_purge::k_purge_1', 'P08 P09 P15', PUR, keep=['purge_expired']),
    H('h_purge::k_purge_2', 'P09', PUR, keep=['purge_expired']),
    H('h_purge::k_purge_3g', 'P09', PUR, tier='t', keep=['purge_expired']),
    H('h_admin::k_init_0', 'P10', INI, keep=['18process_initialize']),
    H('h_admin::k_init_12', 'P10 P15', INI, keep=['18process_initialize']),
    H('h_admin::k_init_pre', 'P10', INI, tier='t', keep=['18process_initialize']),
    H('h_admin::k_rem_2', 'P10', MOD, keep=['modify_oracles']),
    H('h_admin::k_rem_last', 'P10', MOD, tier='t', keep=['modify_oracles']),
    H('h_admin::k_rem_none', 'P10', MOD, tier='t', keep=['modify_oracles']),
    H('h_admin::k_rem_disc', 'P10 P15', MOD, keep=['modify_oracles']),
    H('h_admin::k_mod_op2', 'P10', MOD, keep=['modify_oracles']),
    H('h_admin::k_add_disc', 'P10 P15', MOD, keep=['modify_oracles']),
]

VERUS = {'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P17'}
NATIVE = {'P16'}
TRUSTED = [
    'rustc 1.101 nightly MIR, Kani 0.68 code generation, CBMC 6.11 symbolic execution, CaDiCaL',
]
ASSUMPTIONS = [
    'Pubkey::find_program_address and SHA-256 are functions without collisions among the inputs of one run',
    'sysvars (clock, rent, slot hashes) hold what the runtime puts there; rent is (128 + len) * 6960',
    'a CPI either fails and aborts the instruction or has the effect of the system program; other callees are opaque',
    'the sum of all lamports is below 2^64; a returned error or a panic aborts the instruction and reverts every account',
]

KT = 'Kani harness contracts on the real instruction code (CBMC/SAT back end), dependency contracts stubbed'
BN = ('Every input of the instruction (keys, owners, signer and writable flags, balances, clock, account contents, arguments, outcomes of CPI, hash and PDA derivation) '
      'is symbolic over its full range; payload lengths and the number of pending entries are fixed per harness (bounded, stated per harness in the evidence). ')
KV = KT + '; Verus contracts on the mechanically extracted list-dependent sections, no bound'
VB = 'Verus: the queue section of the processor (and the callback), for every number of entries and every payload length. '
VS = ['Verus sections: a loaded queue is well formed; hash, VRF check, transfers, calls, account creation and resizing are contracts; PDA seeds, borsh encoding and borrow guards are left to the Kani harnesses; contracts of read/write_item_unaligned, the byte casts and to_vec are assumed']
INFO = {
    'P03': dict(technique=KV, level='other', note=BN + VB + 'Trusted: Kani/CBMC, the runtime and SHA-256/PDA contracts.', assumptions=VS),
    'P04': dict(technique=KV, level='other', note=BN + VB, assumptions=VS),
    'P07': dict(technique=KV, level='other', note=BN + VB, assumptions=VS),
    'P08': dict(technique=KV, level='other', note=BN + VB, assumptions=VS),
    'P09': dict(technique=KV, level='other', note=BN + VB, assumptions=VS),
    'P10': dict(technique=KV, level='other', note=BN + 'Verus: the part behind the account checks, for every registry size. ', assumptions=VS),
    'P05': dict(technique='Verus contracts, loop invariants and lemmas on the queue functions extracted mechanically from the source on every run; no bound', level='proof',
                note='Every account length up to the 10 MiB the runtime allows, every content, every payload. Assumed: contracts of the two unsafe byte casts and of the unaligned item read and write (the decoding is checked by Kani), slice::fill and cmp::min; header and entries do not overlap (all entry writes are proved to lie at byte 16 or later). load is checked by Kani. If the code no longer fits the contracts the check is inconclusive and falls back to random operation sequences.',
                assumptions=['account data is at most 10 MiB (runtime limit)', 'Queue header (bytes 0..12) is modelled apart from the entry bytes; entry writes are proved to start at byte 16 or later',
                             'contracts of read_item_unaligned, write_item_unaligned and the two from_raw_parts casts are assumed']),
    'P06': dict(technique='Verus contracts (bounds, overflow, termination; no bound) on the extracted queue functions, Kani with memory checks on the real functions including unsafe code (bounded length)', level='proof',
                note='Verus: every length up to 10 MiB, every content, no precondition on the header. Kani: pointer and bounds checks over arbitrary bytes of every length up to 96..232, including load and all unsafe code.',
                assumptions=['account data is at most 10 MiB (runtime limit)', 'contracts of the unsafe casts are assumed in Verus and checked by Kani up to the stated length']),
    'P13': dict(technique='Kani harness contracts on the real SDK and client builders; the program-side decoder is the oracle', level='other',
                note='Keys, seeds, discriminators, arguments and account lists are symbolic; vector lengths are fixed per harness (bounded). Both feature sets of the SDK crate are checked. Trusted: Kani/CBMC, PDA derivation as an injective function.'),
    'P14': dict(technique='Kani function contracts over the complete input space of the real SDK helpers', level='proof',
                note='Every 32-byte randomness and every (lo, hi) pair is symbolic; no bound. Panics, overflow and memory checks are on. The uniformity claim is the counting lemma: each rejected value lies above the largest multiple of the range, and accepted values map with equal multiplicity. Trusted: Kani/CBMC.'),
    'P18': dict(technique='Kani harness contracts on the real entrypoint with the processors replaced by recording contracts, and on every real processor with malformed instructions', level='other',
                note='Dispatch: instruction data of every length up to 12 and every content. Malformed: for each tag, the well-formed instruction of the other contracts (symbolic world) with its payload a byte shorter or longer, or an account more or less, must be refused (bounded: payload lengths fixed per harness). Effects of a refused instruction are reverted by the runtime (assumed). Trusted: Kani/CBMC.'),
    'P15': dict(technique=KT, level='other', note=BN),
    'P17': dict(technique=KV, level='other', note=BN + VB, assumptions=VS),
}
NA = {
    'P19': 'Pseudo-randomness of VRF outputs is a computational assumption about the curve and hash (a distribution over keys, not a property of any single run); no functional contract or deductive verifier obligation expresses it. Reading the code shows that it does not hold: see DESIGN.md (hash_to_point is a public multiple of the base point, so outputs follow from the public key).',
    'P20': 'Liveness of a networked asynchronous service (RPC and websocket behaviour, retries, scheduling); contracts state partial correctness per call and the available verifiers cannot reason about tokio, the RPC client or eventual progress.',
}
TABLE += [
    H('h_dispatch::k_dispatch', 'P18', 'process_instruction', solo=True),
]
RND = [(r'.', 40)]
TABLE += [H('h_rnd::k_' + n, 'P14', 'ephemeral_vrf_sdk::rnd::' + f, crate='kani_sdk', panics=True, mem=True, pats=[], t=300)
          for n, f in [('range_in', 'random_u8_with_range'), ('range_uniform', 'random_u8_with_range'), ('u8', 'random_u8'), ('u32', 'random_u32'),
                       ('i32', 'random_i32'), ('u64', 'random_u64'), ('i64', 'random_i64'), ('bool', 'random_bool')]]
TABLE += [H('h_sdk::k_sdk_' + n, 'P13', 'ephemeral_vrf_sdk::instructions::create_request_*', crate='kani_sdk', pats=[], feat=f)
          for n in ('hi', 'lo', 'none') for f in ('', 'compat')]
TABLE += [H('h_sdkadm::k_adm_' + n, p, 'ephemeral_vrf_api::sdk::' + f) for n, p, f in [
    ('registry', 'P13', 'initialize, add_oracle, remove_oracle'), *[('queues_' + x, 'P11 P13', 'initialize_oracle_queue') for x in ('default', '10241', '20481')], ('closing', 'P13', 'close_oracle_queue, purge_expired_requests, undelegate_oracle_queue'),
    ('delegating', 'P13', 'delegate_oracle_queue'), ('providing', 'P13', 'provide_randomness')]]
TABLE += [H('h_admin::k_add_1', 'P10', MOD, tier='t', keep=['modify_oracles'])]

QUE = 'ephemeral_vrf_api::state::queue::QueueAccount::'
QP = [(r'QueueAccount', 10)]
TABLE += [H('h_queue::k_q_codec', 'P05', QUE + 'load, get_item_by_index', pats=QP, tier='t')]
SEARCH = {'P05': H('h_queue::k_q_walk', 'P05 P06', QUE + '*'), 'P06': H('h_queue::k_q_walk', 'P05 P06', QUE + '*')}
TABLE += [H('h_queue::k_raw_' + n, 'P06', QUE + f, pats=QP, mem=True, panics=True, tier=t, bounded='account length at most %d' % b) for n, f, t, b in [
    ('get', 'get_item_by_index', 'q', 232), ('find', 'find_item_by_id', 't', 232), ('iter', 'iter_items', 't', 232), ('add', 'add_item', 'q', 160)]]
TABLE += [H('h_queue::k_acc', 'P06', 'QueueItem accessors', pats=QP, mem=True, panics=True, bounded='account length at most 96')]

# failing inputs for the obligations of the processors' queue sections
SEARCH.update({p: H('h_many::k_many', p, 'histories of requests, fulfilments and purges') for p in ('P03', 'P04', 'P07', 'P08', 'P09', 'P17')})

IQ, CQ = 'process_initialize_oracle_queue', 'process_close_oracle_queue'
TABLE += [H('h_qadm::k_open_' + n, 'P11', IQ, keep=['initialize_oracle_queue'], tier=t) for n, t in [
    ('new', 'q'), ('pre', 't'), ('small', 't'), ('10240', 't'), ('10241', 'q'), ('full', 'q'), ('grow', 'q'), ('shrink', 't'), ('more', 't'), ('last', 't'), ('other', 't'), ('foreign', 't'), ('untyped', 't'), ('fixed', 't')]]
TABLE += [H('h_qadm::k_close_' + n, 'P11', CQ, keep=['close_oracle_queue']) for n in ('queue', 'part', 'foreign', 'untyped', 'fixed')]

SEARCH['P10'] = [H('h_admin::k_' + n, 'P10', MOD) for n in ('rem_5a', 'rem_5b', 'rem_40', 'add_5', 'add_40', 'mod_op2')]
SEARCH['P11'] = [H('h_qadm::k_open_' + n, 'P11', IQ) for n in ('10240', 'last', 'more', '10241', 'grow', 'shrink', 'new', 'full')]

VRF = dict(crate='kani_vrf', pats=[])
TABLE += [H('h_vrf::k_vrf_complete_off', 'P01', 'compute_vrf, ephemeral_vrf::vrf::verify_vrf', **VRF),
          H('h_vrf::k_vrf_complete_on', 'P01', 'compute_vrf, ephemeral_vrf_api::verify::verify_vrf', **VRF),
          H("h_vrf::k_vrf_function", "P01", "compute_vrf", **VRF),
          H("h_vrf::k_vrf_keypair", "P01", "generate_vrf_keypair", **VRF),
          H('h_vrf::k_vrf_off', 'P01 P02', 'ephemeral_vrf::vrf::verify_vrf', **VRF),
          H('h_vrf::k_vrf_on', 'P01 P02', 'ephemeral_vrf_api::verify::verify_vrf', **VRF)]
TABLE += [H('h_deleg::k_' + n, 'P12', f, keep=[f]) for n, f in [
    ('delegate', 'process_delegate_oracle_queue'), ('delegate_owner', 'process_delegate_oracle_queue'), ('delegate_queue', 'process_delegate_oracle_queue'), ('undelegate', 'process_undelegate_oracle_queue'), ('restore', 'process_undelegation')]]
TABLE += [H('h_deleg::k_delegate_program', 'P12', 'process_delegate_oracle_queue', tier='t', keep=['process_delegate_oracle_queue'])]
TABLE += [H('h_const::k_const', 'P16', 'ephemeral_vrf_sdk::consts, ephemeral_vrf_api::consts', crate='kani_sdk', pats=[], feat=f) for f in ('', 'compat')]
TABLE += [H('h_vrf::k_vrf_prefix', 'P16', 'compute_vrf', **VRF)]

NV = H('h_vrf::k_nat_vrf', 'P01 P02', 'compute_vrf, verify_vrf', crate='native_vrf')
SEARCH.update(P01=NV, P02=NV)
VA = ['Ristretto is a module over the ring of scalars with unique encodings; the ring is instantiated at Z/32 (bounded model of the dependency curve25519-dalek / solana-curve25519, not of the code under test)',
      'SHA-256 and HKDF are arbitrary functions of their input bytes']
VN = 'The crates vrf and api are compiled unchanged from /repo; keys, inputs, outputs and proofs are symbolic over every byte string; hash and HKDF are uninterpreted functions. Bounded: the scalar ring of the curve dependency is Z/32. A failed obligation is replayed against the real crates. Trusted: Kani/CBMC.'
INFO.update({
    'P01': dict(technique='Kani harness contracts on the real prover and both verifiers over contracts of the curve and hash dependencies', level='other', note=VN, assumptions=VA),
    'P02': dict(technique='Kani harness contracts on both real verifiers over contracts of the curve and hash dependencies', level='other', note=VN, assumptions=VA),
    'P11': dict(technique=KV, level='other', note=BN + 'Verus: opening behind the account checks, for every current and requested size. ', assumptions=VS),
    'P12': dict(technique=KT, level='other', note=BN + 'The ephemeral-rollups SDK is verified together with the processors; system and CPI effects are contracts.'),
    'P16': dict(technique='Kani contracts on the constants (both SDK configurations) and the prover, and evaluation of closed-term contracts (derived addresses) against the real crates', level='other',
                note='The equalities are closed terms: no input is quantified. Addresses with a derivation are compared with the real find_program_address. Trusted: Kani/CBMC, SHA-256 implementation.'),
})
TABLE += [H('h_sdkadm::k_adm_queues_' + x, 'P11 P13', 'ephemeral_vrf_api::sdk::initialize_oracle_queue', tier='t') for x in ('small', '10240')]

TABLE += [H('h_bad::k_bad_' + n, 'P18', f, keep=[k], cost=0) for n, f, k in [
    ('init', INI, '18process_initialize'), ('modify', MOD, 'modify_oracles'), ('open', IQ, 'initialize_oracle_queue'), ('high', REQ, 'request_randomness'), ('request', REQ, 'request_randomness'),
    ('provide', PROV, 'provide_randomness'), ('delegate', 'process_delegate_oracle_queue', 'process_delegate_oracle_queue'), ('undelegate', 'process_undelegate_oracle_queue', 'process_undelegate_oracle_queue'),
    ('restore', 'process_undelegation', 'process_undelegation'), ('close', CQ, 'close_oracle_queue'), ('purge', PUR, 'purge_expired')]]
