PROP = 'P13'
NEEDS = 'a purge built by the client library that finds expired requests in a queue which is not the default ephemeral queue'
BREAKS = 'the built purge instruction gives the oracle account no write privilege, so that the runtime refuses it as soon as fees have to be paid'
EDITS = [('api/src/sdk.rs', """            AccountMeta::new(identity, false),
            AccountMeta::new(oracle_queue_pda(&identity, index).0, false),
        ],
        data: PurgeExpiredRequests""", """            AccountMeta::new_readonly(identity, false),
            AccountMeta::new(oracle_queue_pda(&identity, index).0, false),
        ],
        data: PurgeExpiredRequests""")]
MAIN = r'''
fn main() {
    start();
    let oracle = Pubkey::new_from_array([8; 32]);
    let prog = Pubkey::new_from_array([9; 32]);
    let q = queue_account(&oracle, 2, 2000, 50_000_000);
    let payer = wallet(5, 10_000_000);
    run(&request_accounts(&payer, &prog, &q), &request_data(8, [3; 32], prog, &[1; 8], &[(prog, false, true)], &[1, 2])).unwrap();
    unsafe { SLOT += 300 };
    let ix = ephemeral_vrf_api::prelude::purge_expired_requests(oracle, 2);
    let o = account(oracle, Pubkey::default(), 5, &[], ix.accounts[0].is_signer, ix.accounts[0].is_writable);
    assert!(ix.accounts[0].pubkey == oracle && ix.accounts[1].pubkey == *q.key && ix.accounts[1].is_writable);
    run(&[o.clone(), q.clone()], &ix.data).unwrap();
    // the runtime refuses a balance change of a read-only account
    assert!(o.lamports() == 5 || o.is_writable, "fees paid into an account that the builder marked read-only");
    assert!(ids(&q).is_empty());
}
'''
