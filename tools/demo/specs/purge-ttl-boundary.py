PROP = 'P09'
NEEDS = 'a request that is exactly 240 slots old'
BREAKS = 'a request at exactly the time to live, which has not expired yet, is purged and its fee paid out'
EDITS = [('program/src/purge_expired_requests.rs', 'if age > QUEUE_TTL_SLOTS {', 'if age >= QUEUE_TTL_SLOTS {')]
MAIN = r'''
fn main() {
    start();
    let o = wallet(5, 1_000_000);
    let q = queue_account(o.key, 0, 2000, 50_000_000);
    for (n, s) in [(1u8, 760u64), (2, 759), (3, 900)] {
        with_queue(&q, |q| q.add_item(&QueueItem { slot: s, id: [n; 32], ..Default::default() }, &[1; 8], &[], &[]).unwrap());
    }
    unsafe { SLOT = 1000 }
    let mut d = vec![0u8; 9];
    d[0] = 9;
    run(&[o.clone(), q.clone()], &d).unwrap();
    assert_eq!(ids(&q), vec![[1u8; 32], [3; 32]]);
    assert_eq!(o.lamports(), 1_500_000);
}
'''
