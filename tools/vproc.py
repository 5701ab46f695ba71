"""Extracts the queue sections of the processors from /repo mechanically and
weaves their contracts in.  A section is the text from behind the statement that
loads the queue to the end of the enclosing block.  Kept: every statement of it.
Rewritten (RULES): the hash call (what is hashed is checked elsewhere), two
iterator chains over the account list, `let x = loop {.. break v ..}` as an
assignment before the break, the transfer gets its ghost ledger.  Dropped: msg!."""
import re
import vgen
from vgen import Misfit, mask, close
API = '/repo/api/src/'


def procs():
    res, f, sec = {}, None, None
    for l in open(vgen.V + '/verus/procs.txt'):
        l = l.rstrip('\n')
        if l.startswith('#') or not l.strip():
            continue
        if not l.startswith(' '):
            w = l.split()
            if w[0] == 'fn':
                f = res[w[1]] = {}
            elif w[0] in ('from', 'props', 'loop'):
                f[w[0]] = w[1:]
                if w[0] == 'loop':
                    sec = 'loop text'
                    f[sec] = ''
            else:
                sec = ' '.join(w)
                f[sec] = ''
        else:
            f[sec] += l + '\n'
    return res


def calls(text, pat):
    """(start, open bracket, closing bracket) of each call matching pat"""
    m = mask(text)
    return [(x.start(), x.end() - 1, close(m, x.end() - 1)) for x in re.finditer(pat + r'\s*\(', m)]


def section(path, name, rest=None):
    src = open(path).read()
    f = [x for x in vgen.functions(src) if x[0] == name]
    if len(f) != 1:
        raise Misfit('fn %s' % name)
    _, s, b, e = f[0]
    m = mask(src)
    x = list(re.finditer(r'let\s+(?:mut\s+)?(\w+)\s*=\s*QueueAccount::load\s*\(', m[b:e]))
    if len(x) != 1:
        raise Misfit('%s: the queue is loaded %d times' % (name, len(x)))
    x = x[0]
    i = m.index(';', close(m, b + x.end() - 1)) + 1
    # end of the enclosing block
    d, j = 0, i
    while True:
        if m[j] in '([{':
            d += 1
        elif m[j] in ')]}':
            d -= 1
            if d < 0:
                break
        j += 1
    pre = ''.join(t.group(0) + '\n' for t in re.finditer(r'let\s+\w+\s*=\s*&?args\.[\w.]+\s*;', m[b:b + x.start()]))
    if rest:
        # what follows the statement `let NAME = { .. };` the queue is loaded in
        d, k = 0, b + x.start()
        while d >= 0:
            k -= 1
            d += (m[k] in ')]}') - (m[k] in '([{')
        h = re.search(r'let\s+(\w+)\s*=\s*$', m[b:k])
        t = re.match(r'\s*;', m[j + 1:])
        if not h or not t:
            raise Misfit(name + ': the queue section is no `let .. = {..};`')
        text = src[j + 1 + t.end():e].rstrip()
        if not re.search(r'\bOk\(\(\)\)$', text):
            raise Misfit(name + ': does not end in Ok(())')
        return pre, 'let %s = removed;' % h.group(1) + text[:-6]
    text = src[i:j]
    if x.group(1) != 'queue_acc':
        text = re.sub(r'\b%s\b' % x.group(1), 'queue_acc', text)
    return pre, text


def behind_checks(path, name):
    """the text of fn `name` behind its last account check, without the final Ok(())"""
    src = open(path).read()
    f = [x for x in vgen.functions(src) if x[0] == name]
    if len(f) != 1:
        raise Misfit('fn %s' % name)
    _, s, b, e = f[0]
    m = mask(src)
    i = at = last = b + 1
    while i < e:
        if m[i] in '([{':
            i = close(m, i)
        elif m[i] == ';':
            if re.search(r'\b(is_signer|is_writable|has_seeds|has_owner|is_empty_or_zeroed)\s*\(', m[at:i]):
                last = i + 1
            at = i + 1
        i += 1
    text = src[last:e].rstrip()
    if not re.search(r'\bOk\(\(\)\)$', text) or last == b + 1:
        raise Misfit(name + ': does not end in Ok(()) behind account checks')
    return '', text[:-6]


def open_rules(text):
    """the queue's size: PDA derivation and the bytes of the new queue are the Kani harnesses' business"""
    for s, o, c in reversed(calls(text, r'\blog')):
        text = text[:s] + text[c + 1:].lstrip().removeprefix(';')
    text = re.sub(r'\bephemeral_vrf_api::ID\b', 'PROGRAM_ID', text)
    text = re.sub(r'let\s+seeds\s*:\s*&\[&\[u8\]\]\s*=[^;]*;', '', text)
    text = re.sub(r'let\s+bump\s*=\s*Pubkey::find_program_address\(seeds,\s*&PROGRAM_ID\)\.1\s*;', '', text)
    text = re.sub(r'\boracle_data_info\s*\.as_account(_mut)?::<Oracle>\(&PROGRAM_ID\)', r'record\1(oracle)', text)
    text = re.sub(r'\b(\w+)\.owner\s*!=\s*&PROGRAM_ID\b', r'\1.owner.ne(&PROGRAM_ID)', text)
    text = re.sub(r'\b(\w+)\.owner\s*==\s*&PROGRAM_ID\b', r'\1.owner.eq(&PROGRAM_ID)', text)
    text = re.sub(r'\boracle_queue_info\s*\.data_len\(\)', 'data_len(oracle_queue_info, Tracked(&*led))', text)
    for fn in ("create_pda", "resize_pda"):
        for s, o, c in reversed(calls(text, r'\b' + fn)):
            a = [x.strip() for x in text[o + 1:c].strip().rstrip(',').split(',')]
            if fn == 'create_pda' and len(a) == 7 and a[3:5] == ['seeds', 'bump']:
                a = a[:3] + a[5:]
            elif fn == 'create_pda' or len(a) != 4:
                raise Misfit(fn)
            text = text[:o + 1] + ', '.join(a + ['Tracked(led)']) + text[c:]
    # the block that writes the type and the header
    m = mask(text)
    x = re.search(r'QueueAccount::load\s*\(', m)
    h = re.findall(r'\.header\.index\s*=\s*([^;]+);', text)
    if not x or len(h) != 1:
        raise Misfit('where the queue header is written')
    d, k = 0, x.start()
    while d >= 0:
        k -= 1
        d += (m[k] in ')]}') - (m[k] in '([{')
    e = close(m, k)
    if m[k] != '{' or not re.search(r'[;}]\s*$', m[:k]):
        raise Misfit('where the queue header is written')
    return text[:k] + 'set_up(oracle_queue_info, %s, Tracked(led))?;' % h[0] + text[e + 1:]


def modify_rules(text):
    """the registry: its borsh encoding and the PDA seeds are the Kani harnesses' business"""
    text = re.sub(r'\bephemeral_vrf_api::ID\b', 'PROGRAM_ID', text)
    text = re.sub(r'\boracle_data_info\s*\.as_account(_mut)?::<Oracle>\(&PROGRAM_ID\)', r'record\1(oracle)', text)
    for s, o, c in reversed(calls(text, r'\bcreate_program_account::<Oracle>')):
        a = text[o + 1:c]
        x = re.fullmatch(r'\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*&PROGRAM_ID\s*,\s*&\[ORACLE_DATA,\s*args\.identity\.(?:to_bytes\(\)\.as_slice\(\)|as_ref\(\))\]\s*,?\s*', a)
        if not x:
            raise Misfit('create_program_account')
        text = text[:s] + 'create_record(%s, %s, %s, &PROGRAM_ID, Tracked(led))' % x.groups() + text[c + 1:]
    text = re.sub(r'\b(\w+(?:\.\w+)?)\s*\.retain\(\|(\w+)\|\s*(?:\2\.ne\(&args\.identity\)|\*\2\s*!=\s*args\.identity|\2\s*!=\s*&args\.identity)\s*\)', r'retain_ne(&mut \1, &args.identity)', text)
    for fn, to in (('close_account', 'close_account'), ('resize_pda', 'resize_registry')):
        for s, o, c in reversed(calls(text, r'\b' + fn)):
            text = text[:s] + to + '(' + text[o + 1:c].rstrip().rstrip(',') + ', Tracked(led))' + text[c + 1:]
    return re.sub(r'\.copy_from_slice\((&\w+)\)', r'.write(\1, Tracked(led))', text)


def rules(text):
    for s, o, c in reversed(calls(text, r'\b(?:solana_program::)?msg!')):
        text = text[:s] + text[c + 1:].lstrip().removeprefix(';')
    for s, o, c in reversed(calls(text, r'\b(?:solana_program::hash::)?hashv')):
        text = text[:s] + 'env_hash()' + text[c + 1:]
    for s, o, c in reversed(calls(text, r'\b(?:crate::)?(?:fees::)?transfer_fee')):
        text = text[:s] + 'transfer_fee(' + text[o + 1:c].rstrip().rstrip(',') + ', Tracked(led))' + text[c + 1:]
    # does any listed account have the oracle's key
    pk = r'(?:Pubkey::new_from_array\(\2\.pubkey\)|Pubkey::from\(\2\.pubkey\))'
    ok = r'(?:%s\.eq\(oracle_info\.key\)|oracle_info\.key\.eq\(&%s\)|&%s\s*==\s*oracle_info\.key|%s\s*==\s*\*oracle_info\.key|\*oracle_info\.key\s*==\s*%s|\2\.pubkey\s*==\s*oracle_info\.key\.to_bytes\(\))' % ((pk,) * 5)
    text = re.sub(r'\b(\w+(?:\s*\.\s*\w+\([^()]*\))?)\s*\.iter\(\)\s*\.any\(\|(\w+)\|\s*' + ok + r'\s*\)', r'any_meta(\1, oracle_info.key)', text)
    text = re.sub(r'\b(\w+)\.extend\(\s*(\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\|\s*\3\.to_account_meta\(\)\s*\)\s*\)', r'extend_metas(&mut \1, &\2)', text)
    text = re.sub(r'\b(\w+)\.extend\(vec!\[([^\[\],;]+)\]\)', r'\1.push(\2)', text)
    text = re.sub(r'\.to_bytes\(\)\.as_ref\(\)', '.to_bytes().as_slice()', text)
    # the signer seeds are the Kani harnesses' business
    text = re.sub(r'let\s+(\w+)\s*:\s*&\[&\[&\[u8\]\]\]\s*=\s*&\[&\[IDENTITY,\s*&\[id\.1\]\]\]\s*;', '', text)
    text = re.sub(r'\b(?:solana_program::program::)?invoke_signed\(([^,()]+),([^,()]+),([^,()]+)\)', r'invoke_signed(\1,\2, Tracked(led))', text)
    text = re.sub(r'args\s*\.callback_accounts_metas\s*\.iter\(\)\s*\.map\(\|(\w+)\|\s*\(\*\1\)\.into\(\)\)\s*\.collect::<Vec<CompactAccountMeta>>\(\)', 'to_compact(&args.callback_accounts_metas)', text)
    return text


def inline(text, path):
    """calls of helper functions of the same file, by their bodies"""
    src = open(path).read()
    fs = {}
    for f, s, b, e in vgen.functions(src):
        if not f.startswith('process_') and src[:s].count('{') == src[:s].count('}'):
            fs[f] = (src[s:b], src[b:e + 1])
    for _ in range(6):
        done = True
        for f, (sig, body) in fs.items():
            for s, o, c in reversed(calls(text, r'(?<![\w.:])' + f)):
                if re.search(r'\bfn\s*$', text[:s]):
                    continue
                mb = mask(body)
                tried = text[c + 1:].lstrip().startswith('?')
                if re.search(r'\b' + f + r'\s*\(', mb) or re.search(r'\breturn\b(?!\s*Err\b)', mb) or (not tried and re.search(r'\?|\breturn\b', mb)):
                    raise Misfit('helper %s cannot be put in place of its call' % f)
                ms = mask(sig)
                k = ms.index('(')
                ps = split(sig[k + 1:close(ms, k)])
                names = [re.match(r'\s*((?:mut\s+)?\w+)\s*:', q) for q in ps]
                args = split(text[o + 1:c])
                if not all(names) or len(args) != len(ps):
                    raise Misfit('helper %s' % f)
                b = ''.join('let helper_%d = %s; ' % (n, a) for n, a in enumerate(args)) + ''.join('let %s = helper_%d; ' % (q.group(1), n) for n, q in enumerate(names))
                r = re.search(r'->\s*([^{]+?)\s*$', sig[close(ms, k):])
                text = text[:s] + '({ %slet helper_value: %s = {%s}; helper_value })' % (b, r.group(1) if r else '()', body[1:-1]) + text[c + 1:]
                done = False
        if done:
            break
    return text


def split(t):
    """top-level comma-separated parts"""
    m, out, d, at = mask(t), [], 0, 0
    for i, ch in enumerate(m + ','):
        if ch == ',' and d == 0:
            if t[at:i].strip():
                out.append(t[at:i].strip())
            at = i + 1
        elif ch in '([{<':
            d += 1
        elif ch in ')]}' or ch == '>' and m[i - 1] not in '-=':
            d -= 1
    return out


def weave(name, c):
    if c['from'][2:] == ['checks']:
        pre, text = behind_checks(*c['from'][:2])
        text = inline(text, c['from'][0])
        text = (open_rules if name == 'open' else modify_rules)(rules(text))
    else:
        pre, text = section(*c['from'])
        text = rules(inline(text, c['from'][0]))
    ins = []
    m = mask(text)
    whiles = []
    for x in re.finditer(r'\b(while|loop|for)\b', m):
        if x.group(1) == 'for':
            raise Misfit('%s: for loop' % name)
        i = x.end()
        while m[i] != '{':
            i = close(m, i) + 1 if m[i] in '([' else i + 1
        whiles.append((x.group(1), x.start(), i, close(m, i)))
    want = ['while'] * len([k for k in c if k.startswith('while ')]) + ['loop'] * ('loop' in c)
    if [w[0] for w in whiles] != want:
        raise Misfit('%s: loops %s, contract %s' % (name, [w[0] for w in whiles], want))
    for k, (kind, s, i, j) in enumerate(whiles):
        if kind == 'while':
            ins += [(i, i, '\n' + c['while %d' % k])]
            if 'body %d' % k in c:
                ins += [(i + 1, i + 1, '\n' + c['body %d' % k])]
            if 'after %d' % k in c:
                ins += [(j + 1, j + 1, '\n' + c['after %d' % k])]
        else:
            h = re.search(r'let\s+(\w+)\s*=\s*$', m[:s])
            e = re.match(r'\s*;', m[j + 1:])
            if not h or not e:
                raise Misfit(name + ': the loop has no value')
            ins += [(h.start(), h.end(), 'let mut loop_value: %s; ' % c['loop'][1]), (i, i, '\n' + c['loop text']), (j + 1, j + 1 + e.end(), ' let %s = loop_value;' % h.group(1))]
            for x in re.finditer(r'\bbreak\b([^;]*);', m[i:j]):
                ins += [(i + x.start(), i + x.end(), '{ loop_value = %s; break; }' % text[i + x.start(1):i + x.end(1)].strip())]
    for s, e, t in sorted(ins, key=lambda x: (-x[0], -x[1])):
        text = text[:s] + t + text[e:]
    body = pre + c.get('start', '') + text
    if 'value' in c:
        body = pre + c.get('start', '') + 'let section_value = {' + text + '};\n' + c['value'] + 'Ok(section_value)\n'
    elif 'tail' in c:
        body += '\n' + c['tail']
    return c.get('attr', '') + c['head'] + '{\n' + body + '\n}\n'


def const(src, name):
    x = re.search(r'pub const %s: u64 = [\d_]+;' % name, src)
    if not x:
        raise Misfit('const ' + name)
    return x.group(0) + '\n'


def generate(names, given=None):
    """the queue functions and these sections, one file"""
    text, known, extra = vgen.generate(given=given)
    i = text.rindex('}\nfn main() {}')
    out = [text[:i], open(vgen.V + '/verus/procs.rs').read()]
    k = open(API + 'consts.rs').read()
    out += [const(k, n) for n in ('QUEUE_TTL_SLOTS', 'VRF_LAMPORTS_COST', 'VRF_HIGH_PRIORITY_LAMPORTS_COST')]
    q = open(vgen.SRC).read()
    mq = mask(q)
    x = re.search(r'impl\s+From<SerializableAccountMeta>\s+for\s+CompactAccountMeta\s*\{', mq)
    y = re.search(r'impl\s+CompactAccountMeta\s*\{', mq)
    if not x or not y:
        raise Misfit('conversions of account metas')
    fs = {}
    for z in (x, y):
        block = q[z.end():close(mq, z.end() - 1)]
        fs.update({f: block[s:e + 1] for f, s, b, e in vgen.functions(block)})
    if set(fs) != {'from', 'to_account_meta'}:
        raise Misfit('conversions of account metas: ' + ' '.join(fs))
    fr, n = re.subn(r'fn\s+from\s*\(\s*(\w+)\s*:\s*SerializableAccountMeta\s*\)\s*->\s*Self\s*\{', r'pub fn from_serializable(\1: SerializableAccountMeta) -> (r: CompactAccountMeta) ensures r == cam(\1) {', fs['from'])
    ta, k = re.subn(r'->\s*AccountMeta\s*\{', '-> (r: AccountMeta) ensures r == am(*self) {', fs['to_account_meta'])
    if n != 1 or k != 1:
        raise Misfit('conversions of account metas')
    out.append('impl CompactAccountMeta {\n' + fr + '\n' + ta + '\n}\n')
    out += ['#[derive(Clone, Copy)]\n' + vgen.struct(open(vgen.SRC).read(), 'SerializableAccountMeta') + '\n']
    ix = open(API + 'instruction.rs').read()
    out += [vgen.struct(ix, n) + '\n' for n in ('RequestRandomness', 'ProvideRandomness')]
    ps = procs()
    if 'open' in names or 'modify' in names:
        out += [vgen.struct(open(API + 'state/oracle.rs').read(), 'Oracle') + '\n', open(vgen.V + '/verus/record.rs').read()]
    if 'modify' in names:
        src = open(API + 'state/oracles.rs').read()
        f = [x for x in vgen.functions(src) if x[0] == 'size_with_discriminator']
        if len(f) != 1:
            raise Misfit('size_with_discriminator')
        t, n = re.subn(r'->\s*usize\s*\{', '-> (r: usize) requires self.oracles@.len() < 0x100_0000 ensures r == 12 + 32 * self.oracles@.len() {', src[f[0][1]:f[0][3] + 1], count=1)
        out += [vgen.struct(src, 'Oracles') + '\nimpl Oracles {\n' + t + '\n}\n', vgen.struct(ix, 'ModifyOracle') + '\n', open(vgen.V + '/verus/modify.rs').read()]
    if 'open' in names:
        i = open('/repo/program/src/initialize_oracle_queue.rs').read()
        x = re.search(r'const MAX_EXTRA_BYTES: usize = [\d_]+;', i)
        if not x:
            raise Misfit('const MAX_EXTRA_BYTES')
        out += [x.group(0) + '\n', vgen.struct(ix, 'InitializeOracleQueue') + '\n', open(vgen.V + '/verus/open.rs').read()]
    out += ['\n// ======== section of %s ========\n' % ps[n]['from'][1] + weave(n, ps[n]) for n in names]
    out.append('}\nfn main() {}\n')
    return ''.join(out), known, extra


if __name__ == '__main__':
    import sys
    open(sys.argv[1], 'w').write(generate(sys.argv[2:] or list(procs()))[0])
