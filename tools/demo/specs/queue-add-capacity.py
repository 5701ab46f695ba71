PROP = 'P05'
NEEDS = 'a queue whose free space covers the new entry only without the alignment padding in front of it'
BREAKS = 'an insertion that does not fit is refused half way: it leaves the cursor moved into the free space, so the queue is not unchanged'
EDITS = [('api/src/state/queue.rs', 'if aligned.saturating_add(total_needed) > self.acc.len() {', 'if (self.header.cursor as usize).saturating_add(total_needed) > self.acc.len() {')]
MAIN = r'''
fn main() {
    let item = QueueItem::default();
    for len in 0..700usize {
        let mut mem = vec![0u64; 90];
        let d = unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut u8, len) };
        let Ok(mut q) = QueueAccount::load(d) else { continue };
        for n in 0..5usize {
            let before = (q.header.item_count, q.header.cursor, q.acc.to_vec());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| q.add_item(&item, &[1; 8], &[], &vec![7; n]).is_ok())).unwrap();
            if !r {
                assert_eq!(before, (q.header.item_count, q.header.cursor, q.acc.to_vec()), "refused insertion changed a queue of {len} bytes");
            }
        }
    }
}
'''
