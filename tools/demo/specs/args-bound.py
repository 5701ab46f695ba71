PROP = 'P06'
NEEDS = 'account bytes whose entry claims arguments that begin inside the account and end behind it'
BREAKS = 'reading the arguments of such an entry panics instead of giving an empty slice'
EDITS = [('api/src/state/queue.rs', """        let end = start + self.args_len as usize;
        if end > acc.len() || start > end {""", """        let end = start + self.args_len as usize;
        if start > acc.len() || start > end {""")]
MAIN = r'''
fn main() {
    let acc = [5u8; 120];
    for off in [0u32, 1, 60, 119, 120, 121, u32::MAX] {
        for len in [0u16, 1, 2, 60, 61, 120, 121, u16::MAX] {
            let item = QueueItem { callback_discriminator_offset: off, callback_discriminator_len: len, metas_offset: off, metas_len: len, args_offset: off, args_len: len, ..Default::default() };
            let _ = (item.callback_discriminator(&acc).len(), item.account_metas(&acc).len());
            let want = if off as usize + len as usize <= 120 { len as usize } else { 0 };
            assert_eq!(item.callback_args(&acc).len(), want);
        }
    }
}
'''
