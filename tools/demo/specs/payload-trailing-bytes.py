PROP = 'P18'
NEEDS = 'an instruction whose payload is longer than its type'
BREAKS = 'trailing payload bytes are ignored instead of the instruction being refused'
EDITS = [('api/src/macros.rs', 'bytemuck::try_from_bytes::<Self>(data).or(Err(', 'bytemuck::try_from_bytes::<Self>(&data[..data.len().min(core::mem::size_of::<Self>())]).or(Err(')]
MAIN = r'''
fn main() {
    start();
    let oracle = Pubkey::new_from_array([8; 32]);
    let q = queue_account(&oracle, 2, 2000, 50_000_000);
    let o = account(oracle, Pubkey::default(), 5, &[], false, true);
    let mut d = vec![0u8; 8];
    d[0] = 9;
    assert!(run(&[o.clone(), q.clone()], &d).is_err());
    d.push(2);
    run(&[o.clone(), q.clone()], &d).unwrap();
    d.push(0);
    assert!(run(&[o.clone(), q.clone()], &d).is_err(), "a payload of two bytes was accepted for a purge");
}
'''
