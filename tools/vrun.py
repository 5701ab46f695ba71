"""Verus on the queue functions, extracted from /repo on every run."""
import json, os, re
import kv, vgen

MEMORY = ('precondition not satisfied', 'overflow', 'underflow', 'decreases', 'termination', 'bounds', 'divide', 'division')

# properties of the processors that rest on these functions' contracts
RELY = {'P03': 'provide callback to_account_meta extend_metas any_meta find_item_by_id get_item_by_index', 'P04': 'provide callback find_item_by_id remove_item trim_trailing_holes', 'P07': 'request from_serializable to_compact add_item write_bytes trim_trailing_holes',
        'P08': 'purge callback get_item_by_index remove_item len', 'P10': 'modify size_with_discriminator', 'P11': 'open', 'P09': 'purge get_item_by_index remove_item trim_trailing_holes len', 'P17': 'request find_item_by_id iter_items add_item len'}


def run(prop, work, left):
    os.makedirs(work, exist_ok=True)
    try:
        import vproc
        secs = [n for n, c in vproc.procs().items() if prop in c['props']]
    except Exception as e:
        return [dict(name='verus::queue', status='unknown', why='extraction: %s' % e, obligations=1)]
    name = 'verus::queue' + ''.join('+' + n for n in secs)

    def gen(given=None):
        return vproc.generate(secs, given) if secs else vgen.generate(given=given)
    try:
        text, known, extra = gen()
    except Exception as e:
        return [dict(name=name, status='unknown', why='extraction: %s' % e, obligations=1)]
    f = work + '/queue_extracted.rs'

    def verus(text):
        open(f, 'w').write(text)
        rc, out = kv.sh(['verus', '--output-json', '--time', '--multiple-errors', '9', '--rlimit', '60', '--triggers-mode', 'silent', f], max(30, min(300, left(60))), cwd=work)
        js = {}
        m = re.search(r'^\{$.*^\}$', out, re.S | re.M)
        if m:
            try:
                js = json.loads(m.group(0))
            except Exception:
                pass
        vr = js.get('verification-results', {})
        return out, vr, js.get('times-ms', {}).get('smt', {}).get('total', 0) / 1000

    def errors(text, out):
        lines = text.splitlines()
        fn = lambda l: next((re.search(r'fn (\w+)', x).group(1) for x in reversed(lines[:l]) if re.match(r'\s*(pub )?(open |proof |spec )*fn \w+', x)), '?')
        return [(m, fn(int(l)), lines[int(l) - 1].strip()[:120]) for m, l in re.findall(r'^error(?:\[\w+\])?: (.*?)\n\s*--> [^\n:]*:(\d+)', out, re.M)]
    inferred = {}
    if extra:
        # helpers without a contract: keep the candidate contracts they satisfy
        for _ in range(4):
            text, known, extra = gen(inferred)
            out, vr, smt = verus(text)
            drop = [g for g in errors(text, out) if g[1] in inferred and g[0].startswith('postcondition')]
            if not drop:
                break
            for g in drop:
                req, ens = inferred[g[1]]
                inferred[g[1]] = (req, [x for x in ens if x + ',' != g[2]])
        text, known, extra = gen(inferred)
        extra = [x for x in extra if x not in inferred or not inferred[x][1]]
    out, vr, smt = verus(text)
    n, bad = vr.get('verified', 0), vr.get('errors', 0)
    base = dict(name=name, contract='contracts of ' + ', '.join(known) + (' and of the queue sections of ' + ', '.join(vproc.procs()[n]['from'][1] for n in secs) if secs else ''), obligations=max(1, n + bad), solver_s=smt)
    if vr.get('encountered-vir-error', True) or n == 0:
        return [dict(base, status='unknown', why='verus cannot read the extracted code: ' + ' '.join(re.findall(r'^error.*', out, re.M))[:400])]
    if bad == 0 and vr.get('success'):
        return [dict(base, status='ok')]
    # which obligations, in which extracted functions
    got = errors(text, out)
    rl = 'Resource limit' in out
    # memory safety: bounds, overflow, termination, and what the accessors answer out of range
    mem = [g for g in got if any(k in g[0] for k in MEMORY) or '> acc@.len()' in g[2]]
    mine = mem if prop == 'P06' else [g for g in got if g not in mem]
    if prop in RELY:
        mine = [g for g in got if g[1] in RELY[prop].split()]
    why = '; '.join('%s in %s: %s' % g for g in mine)
    if extra or inferred:
        return [dict(base, status='unknown', why='helpers without contract (%s): %s' % (', '.join(extra), why))]
    if rl:
        return [dict(base, status='unknown', why='resource limit: ' + why)]
    if not mine:
        return [dict(base, status='unknown', why='obligations of another property failed: ' + '; '.join('%s in %s' % g[:2] for g in got))]
    return [dict(base, status='failed', why=why + '\n\n' + re.sub(r'^\{$.*^\}$', '', out, flags=re.S | re.M)[-4000:])]
