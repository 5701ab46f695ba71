#!/usr/bin/env python3
"""setup: checks that the verifiers are there and builds the third-party
dependencies of the harness crates; every check rebuilds /repo's crates and the
harnesses themselves."""
import os, shutil, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kv, table
need = ['cargo', 'verus', 'goto-instrument', 'cbmc']
missing = [n for n in need if not shutil.which(n, path=kv.ENV['PATH'])]
if missing:
    print('missing:', missing)
    sys.exit(1)
jobs = sorted({(h.crate, h.feat) for h in table.TABLE})


def go(j):
    crate, feat = j
    h = next(h for h in table.TABLE if (h.crate, h.feat) == j)
    m, out = kv.build(kv.VERIF + '/' + crate, [h.name], features=feat.split(',') if feat else None, timeout=900)
    print(crate, feat, 'ok' if m else out[-1500:], flush=True)


def native(crate):
    t = kv.VERIF + '/work/tgt/native_' + crate
    os.makedirs(t, exist_ok=True)
    rc, out = kv.sh([kv.VERIF + '/' + crate + '/build_native.sh', t], 900)
    print(crate, 'native', rc, out[-500:] if rc else '', flush=True)


with ThreadPoolExecutor(3) as ex:
    nats = sorted({c for c in {h.crate for h in table.TABLE} | {h.crate for s in table.SEARCH.values() for h in (s if isinstance(s, list) else [s])} if os.path.exists(kv.VERIF + '/' + c + '/build_native.sh')})
    list(ex.map(lambda j: go(j) if isinstance(j, tuple) else native(j), jobs + nats))
