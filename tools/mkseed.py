#!/usr/bin/env python3
"""mkseed.py ID: (re)makes /verif/seeded/ID from /verif/tools/demo/specs/ID.py (PROP, EDITS, NEEDS, BREAKS)
and main.rs text (MAIN); confirms it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i = sys.argv[1]
s = runpy.run_path(V + '/tools/demo/specs/%s.py' % i)
d = V + '/seeded/' + i
os.makedirs(d, exist_ok=True)
for f in ('common.rs', 'demo.sh', 'Cargo.lock'):
    shutil.copy(V + '/tools/demo/' + f, d)
if 'DEMO' in s:
    open(d + '/demo.sh', 'w').write(s['DEMO'])
for n, t in s.get('FILES', {}).items():
    open(d + '/' + n, 'w').write(t)
if 'MAIN' in s:
    open(d + '/main.rs', 'w').write('mod common;\nuse common::*;\n' + s['MAIN'])
json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
w = tempfile.mkdtemp(prefix='seed_')
try:
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    r = w + '/repo'
    sh = lambda c, **k: subprocess.run(c, shell=True, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    a = sh('bash %s/demo.sh' % d)
    print('clean', a.returncode, a.stdout[-300:] if a.returncode else '')
    for f, old, new in s['EDITS']:
        t = open(r + '/' + f).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(r + '/' + f, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
    b = sh('bash %s/demo.sh' % d)
    print('patched', b.returncode, b.stdout[-300:])
    ok = a.returncode == 0 and b.returncode not in (0, 98, 99)
    if '--test' in sys.argv:
        t = sh('CARGO_NET_OFFLINE=true cargo +1.93.0 test --offline --workspace 2>&1 | tail -30')
        print(t.stdout[-1500:])
    print(i, 'OK' if ok else 'BAD')
finally:
    shutil.rmtree(w, ignore_errors=True)
