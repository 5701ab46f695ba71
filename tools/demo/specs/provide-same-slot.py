PROP = 'P03'
NEEDS = 'a fulfilment that arrives in the very slot of its request'
BREAKS = 'a fulfilment is accepted in the slot of the request instead of only in a later one'
EDITS = [('program/src/provide_randomness.rs', 'if Clock::get()?.slot <= item.slot {', 'if Clock::get()?.slot < item.slot {')]
MAIN = r'''
fn main() {
    start();
    let o = wallet(5, 1_000_000);
    let input = [7u8; 32];
    let (pk, args) = prove(&input);
    let od = oracle_account(o.key, pk, 0, 1);
    let cb = Pubkey::new_from_array([9; 32]);
    for (slot, ok) in [(1000u64, false), (1001, false), (999, true)] {
        let q = queue_account(o.key, 2, 2000, 50_000_000);
        with_queue(&q, |q| q.add_item(&QueueItem { slot, id: input, callback_program_id: cb.to_bytes(), ..Default::default() }, &[1; 8], &[], &[]).unwrap());
        unsafe { SLOT = 1000 }
        let mut d = vec![0u8; 8];
        d[0] = 4;
        d.extend_from_slice(&args);
        let r = run(&[o.clone(), account(program_identity_pda().0, Pubkey::default(), 0, &[], false, false), od.clone(), q.clone(), account(cb, Pubkey::default(), 1, &[], false, false)], &d);
        assert_eq!(r.is_ok(), ok, "slot {slot}: {r:?}");
        assert_eq!(calls().len(), ok as usize);
    }
}
'''
