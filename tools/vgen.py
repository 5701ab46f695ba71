"""Extracts the queue functions from /repo mechanically and weaves the contracts in.

Kept verbatim: every statement of every extracted function.  Rewritten (RULES):
the two byte casts, size_of_val of the account list, the id comparison, and
iter_items returning its vector instead of the vector's iterator.  Dropped:
attributes and derives, doc comments, `load` and the other impls."""
import re, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/api/src/state/queue.rs'


class Misfit(Exception):
    pass


def mask(s):
    """s with comments and string/char literals blanked, same length"""
    out = list(s)
    i = 0
    while i < len(s):
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = len(s) if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i) + 2
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            j += 1
        elif re.match(r"'(\\.|[^\\'])'", s[i:i + 4]):
            j = i + re.match(r"'(\\.|[^\\'])'", s[i:i + 4]).end()
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != '\n':
                out[k] = ' '
        i = j
    return ''.join(out)


def close(m, i):
    """index of the bracket closing the one at i"""
    d = 0
    for k in range(i, len(m)):
        if m[k] in '([{':
            d += 1
        elif m[k] in ')]}':
            d -= 1
            if d == 0:
                return k
    raise Misfit('unbalanced')


def contracts():
    res, f, sec = {}, None, None
    for l in open(V + '/verus/contracts.txt'):
        l = l.rstrip('\n')
        if l.startswith('#') or not l.strip():
            continue
        if not l.startswith(' '):
            w = l.split()
            if w[0] == 'fn':
                f = res[w[1]] = {}
            elif w[0] == 'ret':
                f['ret'] = w[1]
            elif w[0] == 'external':
                f['external'] = True
            else:
                sec = ' '.join(w)
                f[sec] = ''
        else:
            f[sec] += l + '\n'
    return res


def functions(text):
    """(name, start, end) of every fn in an impl block's text (masked search)"""
    m = mask(text)
    for x in re.finditer(r'(?:pub(?:\([a-z]+\))?\s+)?fn\s+(\w+)', m):
        b = x.end()
        # the body starts at the first { outside brackets
        d = 0
        while not (m[b] == '{' and d == 0):
            if m[b] in '([':
                d += 1
            elif m[b] in ')]':
                d -= 1
            elif m[b] == ';' and d == 0:
                raise Misfit('fn without body')
            b += 1
        yield x.group(1), x.start(), b, close(m, b)


RULES = [
    (r'unsafe\s*\{\s*(?:core::|std::)?slice::from_raw_parts\(\s*(\w+)\.as_ptr\(\)\s+as\s+\*const\s+u8\s*,\s*(\w+)\s*,?\s*\)\s*\}', r'raw_bytes(\1, \2)'),
    (r'unsafe\s*\{\s*(?:core::|std::)?slice::from_raw_parts\(\s*(\w+)\.as_ptr\(\)\s+as\s+\*const\s+CompactAccountMeta\s*,\s*(\w+)\s*,?\s*\)\s*\}', r'raw_metas(\1, \2)'),
    (r'\bsize_of_val\((\w+)\)', r'metas_size(\1)'),
    (r'&item\.id\s*==\s*id\b', r'id_eq(&item.id, id)'),
    (r'\bitem\.id\s*==\s*\*id\b', r'id_eq(&item.id, id)'),
]


def weave(name, text, c):
    """text of one function with its contract woven in"""
    for p, r in RULES:
        text = re.sub(p, r, text)
    if name == 'iter_items':
        text, n = re.subn(r'->\s*impl\s+Iterator<Item\s*=\s*QueueItem>\s*\+\s*\'_', '-> Vec<QueueItem>', text)
        text, k = re.subn(r'\bout\.into_iter\(\)(\s*\}\s*)$', r'out\1', text)
        if n != 1 or k != 1:
            raise Misfit('iter_items no longer returns its vector')
    (_, s, b, e), = list(functions(text))
    m = mask(text)
    ins = []  # (position, text)
    sig = text[:b]
    if 'ret' in c:
        sig, n = re.subn(r'->\s*(.+?)\s*$', lambda x: '-> (%s: %s)' % (c['ret'], x.group(1)), sig, flags=re.S)
        if n != 1:
            raise Misfit('signature of ' + name)
    head = sig + '\n' + c.get('spec', '')
    if c.get('external'):
        return '#[verifier::external_body]\n' + head + '{ unimplemented!() }\n'
    loops = []
    for x in re.finditer(r'\b(while|loop|for)\b', m[b:e]):
        i = b + x.end()
        while m[i] != '{':
            i = close(m, i) + 1 if m[i] in '([' else i + 1
        loops.append((x.group(1), i, close(m, i)))
    want = len([k for k in c if k.startswith('while ')])
    if len(loops) != want or any(l[0] != 'while' for l in loops):
        raise Misfit('%s has %d loops, its contract %d' % (name, len(loops), want))
    for k, (_, i, j) in enumerate(loops):
        ins.append((i, '\n' + c['while %d' % k]))
        if 'body %d' % k in c:
            ins.append((i + 1, '\n' + c['body %d' % k]))
        if 'after %d' % k in c:
            ins.append((j + 1, '\n' + c['after %d' % k]))
    rets = [b + x.start() for x in re.finditer(r'\breturn\b', m[b:e])]
    for key in c:
        if key.startswith('return '):
            k = int(key.split()[1])
            if k >= len(rets):
                raise Misfit('%s: return %d is gone' % (name, k))
            ins.append((rets[k], c[key]))
        if key.startswith('mark '):
            ps = [x.start() for x in re.finditer(r'\b%s\s*\(' % key.split()[1], m[b:e])]
            if len(ps) != 1:
                raise Misfit('%s: %s is called %d times' % (name, key[5:], len(ps)))
            ins.append((m.index(';', b + ps[0]) + 1, '\n' + c[key]))
    if 'start' in c:
        ins.append((b + 1, '\n' + c['start']))
    if 'end' in c:
        # start of the final expression: after the last ; or block at depth 0
        i, last = b + 1, b + 1
        while i < e:
            if m[i] in '([{':
                j = close(m, i)
                if m[i] == '{':
                    rest = m[j + 1:e].lstrip()
                    if rest and rest[0] not in '.?':
                        last = j + 1
                i = j
            elif m[i] == ';':
                last = i + 1
            i += 1
        ins.append((last, '\n' + c['end']))
    body = text[b:]
    for p, t in sorted(ins, key=lambda x: -x[0]):
        body = body[:p - b] + t + body[p - b:]
    return head + body + '\n'


def struct(src, name):
    m = mask(src)
    x = re.search(r'pub\s+struct\s+%s\b[^{;]*\{' % name, m)
    if not x:
        raise Misfit('struct %s' % name)
    return src[x.start():close(m, x.end() - 1) + 1]


def candidates(text):
    """contracts a helper of this signature may satisfy, to be inferred (Houdini)"""
    (_, s, b, e), = list(functions(text))
    sig = mask(text)[:b]
    x = re.search(r'\((.*)\)\s*->\s*([\w:<>&\s]+?)\s*$', sig, re.S)
    if not x or re.search(r'\b(while|loop|for)\b', mask(text)[b:e]):
        return None
    ps = [(m.group(1), m.group(2).strip()) for m in re.finditer(r'(\w+)\s*:\s*([^,]+)', x.group(1))]
    its = [n for n, t in ps if re.fullmatch(r"&?\s*QueueItem", t)]
    accs = [n for n, t in ps if re.fullmatch(r"&\s*('\w+\s+)?(mut\s+)?\[u8\]", t)]
    ns = [n for n, t in ps if t == 'usize']
    slf = re.match(r'\s*&\s*(mut\s+)?self\b', x.group(1)) is not None
    req, ens = [], []
    if x.group(2) == 'usize':
        req = ['%s < 0x100_0000_0000' % n for n in ns]
        for i in its:
            d = '(*%s)' % i if dict(ps)[i].startswith('&') else i
            ens += ['r == fin(%s, 0)' % d, 'r == nxt(%s, 0)' % d, 'r == fin(%s, 0) - 96' % d, 'r == %s.metas_len * 33' % i]
            for n in ns:
                ens += ['r == fin(%s, %s as int)' % (d, n), 'r == nxt(%s, %s as int)' % (d, n)]
        if not its:
            for n in ns:
                ens += ['r == al(%s as int)' % n]
            if not ps:
                ens += ['r == 16', 'r == 96', 'r == 33', 'r == 8', 'r == 12']
            if slf:
                ens += ['r == self.end()', 'r == self.count()']
    elif x.group(2) == 'QueueItem' and ns and (slf or accs):
        a = accs[0] if accs else 'self.acc'
        req = ['%s + 96 <= %s@.len()' % (ns[0], a)]
        ens = ['r == at(%s@, %s as int)' % (a, ns[0])]
    return (req, ens) if ens else None


def helper(text, c):
    (_, s, b, e), = list(functions(text))
    sig = re.sub(r'->\s*(.+?)\s*$', lambda x: '-> (r: %s)' % x.group(1), text[:b], flags=re.S)
    body = text[b:]
    # what the candidates need about the decoding of a sub-slice
    t = ''
    if c[0]:
        t += '\nrequires ' + ', '.join(c[0]) + ','
    return sig + t + '\nensures\n' + ''.join('    %s,\n' % x for x in c[1]) + body


def generate(src_text=None, skip=(), given=None):
    """(text, functions under contract, functions without contract)"""
    src = src_text if src_text is not None else open(SRC).read()
    src = re.sub(r'#!?\[[^\]]*\]', '', src) if False else src
    m = mask(src)
    cs = contracts()
    out = [open(V + '/verus/prelude.rs').read(), open(V + '/verus/lemmas2.rs').read() if os.path.exists(V + '/verus/lemmas2.rs') else '',
           '\n// ======== extracted from %s ========\n' % SRC]
    for st in ('Queue', 'QueueItem', 'CompactAccountMeta'):
        out.append('#[repr(C)]\n#[derive(Clone, Copy)]\n' + struct(src, st) + '\n')
    out.append(struct(src, 'QueueAccount') + '\n')
    known, extra, missing = [], [], set(cs)
    for pat, head in ((r'impl\s+QueueItem\s*\{', 'impl QueueItem'), (r'impl<\'a>\s+QueueAccount<\'a>\s*\{', 'impl<\'a> QueueAccount<\'a>')):
        for x in re.finditer(pat, m):
            e = close(m, x.end() - 1)
            block = src[x.end():e]
            body = ''
            for name, s, b, t in functions(block):
                if name == 'load' or name in skip:
                    continue
                text = block[s:t + 1]
                if name in cs:
                    missing.discard(name)
                    known.append(name)
                    body += weave(name, text, cs[name])
                else:
                    extra.append(name)
                    for p, r in RULES:
                        text = re.sub(p, r, text)
                    if given and name in given:
                        text = helper(text, given[name])
                    elif given is not None and name not in given:
                        c = candidates(text)
                        if c:
                            given[name] = c
                            text = helper(text, c)
                    body += text + '\n'
            out.append(head + ' {\n' + body + '}\n')
    # free functions of the module
    out.append('}\nfn main() {}\n')
    if missing:
        raise Misfit('no longer there: ' + ', '.join(sorted(missing)))
    return ''.join(out), known, extra


if __name__ == '__main__':
    t, k, x = generate()
    open(sys.argv[1], 'w').write(t)
    print(k, x)
