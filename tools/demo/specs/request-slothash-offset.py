PROP = 'P07'
NEEDS = 'two requests with equal seed in different forks or slots whose ids must differ by the slot hash'
BREAKS = 'the id is not computed from the most recent slot hash but from other bytes of the sysvar (slot number and part of the hash)'
EDITS = [('program/src/request_randomness.rs', '[16..48]', '[8..40]')]
MAIN = r'''
fn main() {
    start();
    let payer = wallet(5, 10_000_000);
    let prog = Pubkey::new_from_array([9; 32]);
    let q = queue_account(&Pubkey::new_from_array([8; 32]), 2, 2000, 50_000_000);
    let a = request_accounts(&payer, &prog, &q);
    let sh = a[4].data.borrow()[16..48].to_vec();
    run(&a, &request_data(8, [3; 32], prog, &[1; 8], &[(prog, false, true)], &[1, 2])).unwrap();
    let want = solana_program::hash::hashv(&[&[3; 32], &1000u64.to_le_bytes(), &sh, &[1; 8], prog.as_ref(), &77i64.to_le_bytes(), &0u32.to_le_bytes()]);
    assert_eq!(ids(&q), vec![want.to_bytes()]);
}
'''
