#!/usr/bin/env python3
"""dev.py [-t SEC] [-j N] [-u N] [-p pat:n] regex...   build and run the harnesses of the table matching"""
import sys, time, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kv, table
from concurrent.futures import ThreadPoolExecutor, as_completed
a = sys.argv[1:]
to = 500; hs = []; uw = None; j = 6; pats = []
while a:
    x = a.pop(0)
    if x == '-t': to = int(a.pop(0))
    elif x == '-u': uw = int(a.pop(0))
    elif x == '-j': j = int(a.pop(0))
    elif x == '-p':
        p, n = a.pop(0).rsplit(':', 1); pats.append((p, int(n)))
    else: hs.append(x)
sel = [h for h in table.TABLE if any(re.search(x + '$', h.name) for x in hs)]
for crate, feat in sorted({(h.crate, h.feat) for h in sel}):
    t = time.time()
    cs = [h for h in sel if h.crate == crate and h.feat == feat]
    metas, log = kv.build(kv.VERIF + '/' + crate, [h.name for h in cs], features=feat.split(',') if feat else None)
    print('build %.1f' % (time.time() - t), flush=True)
    if metas is None or any(h.name not in metas for h in cs):
        print('\n'.join(l for l in log.splitlines() if 'Wl,' not in l and 'unstable' not in l)[-6000:]); sys.exit(2)
    with ThreadPoolExecutor(j) as ex:
        fs = {ex.submit(kv.run, h.name, metas[h.name], timeout=to, keep='/tmp/kv_%s.txt' % h.name.split(':')[-1], patterns=pats + h.pats, unwind=uw,
                        mem_checks=h.mem, keepfn=h.keep, field=h.field, mem_gb=max(12, h.gb)): h for h in cs}
        for f in as_completed(fs):
            r = f.result()
            bad = [x for x in r.get('failed', []) if '.cover.' not in x[0]]
            cov = [x[1] for x in r.get('failed', []) if '.cover.' in x[0]]
            print(r['name'], r['status'], 'wall', r['wall'], 'symex', r.get('symex_s'), 'solver', r.get('solver_s'), 'props', r.get('props'), 'vccs', r.get('vccs'), 'covered', len(cov), 'mb', r.get('mb'), 'why', (r.get('why') or '')[-200:], flush=True)
            for b in bad:
                if 'alloc.' not in b[0]: print('   FAILED', b, flush=True)
