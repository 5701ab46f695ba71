"""Closed terms: a contract without variables is decided by evaluating it, once, against the real crates."""
import re
import kv, replay
RUNS = {'P16': [('native_vrf', 'h_vrf::k_nat_const', 'constants against their derivations and other statements')]}


def run(prop, work, left, tier, seed):
    out = []
    for crate, fn, what in RUNS[prop]:
        b = replay.binary(crate, work, left)
        if not b:
            out.append(dict(name=fn, status='unknown', why='does not build', concrete=False))
            continue
        rc, o = kv.sh([b, fn, 'hex', '', prop], 60)
        m = re.search(r'CHECK-FAILED: .*', o)
        n = open('%s/%s/src/%s.rs' % (kv.VERIF, crate, fn.split('::')[0])).read().count('"%s: ' % prop)
        if rc == 0:
            out.append(dict(name=fn, what=what, status='ok', obligations=n, concrete=True, why=''))
        elif m:
            out.append(dict(name=fn, what=what, status='failed', obligations=n, concrete=True, why=m.group(0) + '\nrun: %s/build_native.sh T; T/release/replay %s hex "" %s' % (crate, fn, prop)))
        else:
            out.append(dict(name=fn, what=what, status='unknown', obligations=n, concrete=False, why=o[-300:]))
    return out
