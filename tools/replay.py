"""Native replay of failed obligations: the verifier's counterexample, then a
short search around the same contract, run against the real crates."""
import json, os, re, time
import kv
BIN = {}


def binary(crate, work, left):
    """the crate's native replay program, built once per check"""
    if crate not in BIN:
        d = kv.VERIF + '/' + crate
        if not os.path.exists(d + '/build_native.sh'):
            BIN[crate] = None
        else:
            t = kv.VERIF + '/work/tgt/native_' + crate
            os.makedirs(t, exist_ok=True)
            os.makedirs(work, exist_ok=True)
            with open(t + '/.verif-lock', 'w') as lk:
                import fcntl, shutil
                fcntl.flock(lk, fcntl.LOCK_EX)
                kv.forget_local(t)
                rc, out = kv.sh([d + '/build_native.sh', t], max(30, min(300, left(20))))
                b = work + '/replay_' + crate
                BIN[crate] = shutil.copy(t + '/release/replay', b) if rc == 0 and os.path.exists(t + '/release/replay') else None
            if rc:
                print('native build failed', out[-800:], flush=True)
    return BIN[crate]


def trace_bytes(h, meta, prop, left):
    """the kani::any() values of the counterexample to `prop`, in order"""
    r = kv.run(h.name, meta, timeout=max(20, min(420, left(60))), mem_gb=20, mem_checks=h.mem, keepfn=h.keep, patterns=h.pats, field=h.field,
               extra=['--property', prop], trace=True, noslice=True)
    try:
        js = json.loads(r['out'])
    except Exception:
        return None, r.get('out', '')[-500:]
    steps = None
    for e in js:
        for p in e.get('result', []) if isinstance(e, dict) else []:
            if p.get('status') == 'FAILURE' and p.get('trace'):
                steps = p['trace']
    if not steps:
        return None, 'no trace'
    return draws(steps), ''


def leaf_bytes(v):
    if v is None:
        return b''
    if 'elements' in v:
        return b''.join(leaf_bytes(e['value']) for e in v['elements'])
    if 'members' in v:
        return b''.join(leaf_bytes(m['value']) for m in v['members'])
    b = v.get('binary')
    if b is None:
        return b''
    n = (len(b) + 7) // 8
    return int(b, 2).to_bytes(n, 'little')


def draws(steps):
    out, cur = b'', None
    for s in steps:
        f = s.get('sourceLocation', {}).get('function', '')
        if s.get('stepType') == 'assignment' and s.get('lhs', '').startswith('goto_symex$$return_value') and 'any_raw' in (f + s.get('lhs', '')):
            out += leaf_bytes(s.get('value'))
    return out


def native(prop, h):
    """the contract to run natively: the harness's own, or the property's if its crate has no native program"""
    import table
    if not os.path.exists(kv.VERIF + '/%s/build_native.sh' % h.crate) and prop in table.SEARCH:
        return table.SEARCH[prop]
    return h


def search(prop, h, work, left, seed, secs):
    """(runs, failing text or '') or None if there is no native program"""
    if isinstance(h, list):
        n = 0
        for x in h:
            s = search(prop, x, work, left, seed, max(3, secs // len(h)))
            if s is None or s[1]:
                return s
            n += s[0]
        return n, ''
    b = binary(h.crate, work, left)
    if not b:
        return None
    rc, out = kv.sh(['bash', '-c', 'exec "$@" >/dev/null', 'x', b, h.replay, 'search', str(seed), str(secs), prop], secs + 30)
    m = re.search(r'(CHECK-FAILED: .*)\nHEX ([0-9a-f]*)', out)
    if rc == 1 and m:
        return 0, 'property %s\nharness %s\n%s\ninput %s\nrun: kani/build_native.sh T; T/release/replay %s hex %s %s\n' % (prop, h.replay, m.group(1), m.group(2), h.replay, m.group(2), prop)
    m = re.search(r'(\d+) runs', out)
    return (int(m.group(1)) if m else 0), ''


def make(prop, name, r, work, replays, left, seed):
    h = r['h']
    path = replays + '/%s_%s.txt' % (prop, re.sub(r'\W+', '_', name))
    text = 'property %s\nharness %s\nfailed obligations:\n' % (prop, name) + ''.join('  %s: %s\n' % x for x in r['bad'])
    concrete = False
    nh = native(prop, h)
    s = search(prop, nh, work, left, seed, 20) if left() > 60 else None
    if s and s[1]:
        concrete, text = True, text + s[1]
    elif s is not None and nh is h and left() > 120:
        hx, why = trace_bytes(h, r['meta'], r['bad'][0][0], left)
        if hx:
            rc, out = kv.sh([binary(h.crate, work, left), h.replay, 'hex', hx.hex(), prop], 60)
            text += 'verifier counterexample (kani::any values) %s\nnative run: exit %d %s\n' % (hx.hex(), rc, out[-300:])
            concrete = rc == 1
        else:
            text += 'no counterexample trace: %s\n' % why
    open(path, 'w').write(text)
    return dict(path=path, concrete=concrete, key=name + ' ' + r['bad'][0][0], what='; '.join(d for _, d in r['bad']))
