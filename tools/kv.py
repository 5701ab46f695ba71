"""Kani pipeline: rustc -> goto (kani-compiler) once, then goto-instrument and
CBMC per harness, with our own unwinding and instrumentation flags."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI_HOME = os.path.expanduser('~/.kani/kani-0.68.0')
KBIN = KANI_HOME + '/bin'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
ENV['PATH'] = KBIN + ':' + ENV.get('PATH', '')


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None, use=None):
    """Runs cmd in its own process group; (rc, output), 124 on timeout.  Peak
    memory in MB goes to use['mb']."""
    def lim():
        import resource
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=cwd, env=env or ENV, preexec_fn=lim)
        end = time.time() + timeout if timeout else None
        rc = None
        while rc is None:
            pid, st, ru = os.wait4(p.pid, os.WNOHANG)
            if pid:
                rc = os.waitstatus_to_exitcode(st)
                if use is not None:
                    use['mb'] = ru.ru_maxrss // 1024
                p.returncode = rc
            elif end and time.time() > end:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                os.wait4(p.pid, 0)
                p.returncode = rc = 124
            else:
                time.sleep(0.05)
        f.seek(0)
        return rc, f.read().decode(errors='replace')


LOCAL = ('vh', 'ephemeral-vrf', 'ephemeral_vrf', 'proptool')


def forget_local(target):
    """Drops what an earlier run built from /repo and from the harness crates, so
    that only third-party dependencies are reused whatever the file times say."""
    for root, dirs, files in os.walk(target):
        if os.path.basename(root) in ('build', '.fingerprint'):
            for d in list(dirs):
                if any(d == l or d.startswith(l + '-') or d.startswith('vh') for l in LOCAL) and 'rollups' not in d:
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            dirs[:] = []


def build(crate, harnesses=None, target=None, timeout=700, features=None, work=None):
    """Compile `crate` and the given harnesses; returns {name: meta}, log.  With
    `work`, the goto files are copied there and the shared target is released."""
    shared = target is None
    target = target or VERIF + '/work/tgt/' + os.path.basename(crate) + ('_' + '_'.join(features) if features else '')
    os.makedirs(target, exist_ok=True)
    with open(target + '/.verif-lock', 'w') as lk:
        import fcntl
        fcntl.flock(lk, fcntl.LOCK_EX)
        if work:
            forget_local(target)
        cmd = ['cargo', 'kani', '--target-dir', target, '-Z', 'stubbing', '-Z', 'function-contracts', '-Z', 'unstable-options',
               '--no-assertion-reach-checks', '--only-codegen', '--exact', '--lib']
        if features:
            cmd += ['--features', ','.join(features)]
        for h in harnesses or []:
            cmd += ['--harness', h]
        rc, out = sh(cmd, timeout, cwd=crate)
        if rc != 0:
            return None, out
        res = {}
        newest = {}
        name = re.search(r'name = "([^"]+)"', open(crate + '/Cargo.toml').read()).group(1)
        for f in glob.glob(target + '/kani/**/%s*.kani-metadata.json' % name.replace('-', '_'), recursive=True):
            m = json.load(open(f))
            if m['crate_name'] != name.replace('-', '_'):
                continue
            for h in m['proof_harnesses']:
                g = h['goto_file']
                if os.path.exists(g) and os.path.getmtime(g) >= newest.get(h['pretty_name'], 0):
                    newest[h['pretty_name']] = os.path.getmtime(g)
                    res[h['pretty_name']] = dict(goto=g, fn=h['mangled_name'], unwind=h['attributes'].get('unwind_value') or 0,
                                                 stubs=h['attributes'].get('stubs', []))
        if work:
            os.makedirs(work, exist_ok=True)
            for n, m in res.items():
                if not harnesses or n in harnesses:
                    m['goto'] = shutil.copy(m['goto'], work + '/%s.goto' % n.replace('::', '_'))
    return res, out


BASE_FLAGS = ['--no-malloc-may-fail', '--no-undefined-shift-check', '--no-signed-overflow-check', '--nan-check',
              '--no-self-loops-to-assumptions', '--no-pointer-primitive-check', '--object-bits', '16', '--sat-solver', 'cadical',
              '--slice-formula']


# destructors without observable effect (they only free memory)
NOOP = [r'9drop_glueNtNtNt\w{2,3}_2io5error5ErrorE']


def prepare(meta, work, keep=None, mem=False):
    """goto-cc + goto-instrument as the Kani driver does, plus our memcmp.
    Functions without a body are reported by CBMC and make the run inconclusive."""
    out = os.path.join(work, 'h.goto')
    def step(c):
        rc, o = sh(c, 300)
        if rc != 0:
            raise RuntimeError('goto pipeline: %s\n%s' % (' '.join(c), o[-2000:]))
        return o
    step(['goto-cc', meta['goto'], KANI_HOME + '/library/kani/kani_lib.c', VERIF + '/kani/model.c', '--function', meta['fn'], '-o', out])
    names = {n.decode() for n in re.findall(rb'_R[A-Za-z0-9_]{8,2000}', open(out, 'rb').read())}
    noop = sorted(n for n in names if any(re.search(p, n) for p in NOOP) and not re.search(r'RefMut|4cell3Ref', n))
    drop = []
    if keep is not None:
        # other instructions' processors are unreachable for this harness's tag;
        # reaching one makes the run inconclusive
        drop = sorted(n for n in names if re.fullmatch(r'_RNv\w*21ephemeral_vrf_program\w*\dprocess_\w+', n) and '::' not in n
                      and not n.endswith('19process_instruction') and not any(k in n for k in keep))
    step(['goto-instrument'] + [x for n in noop + drop for x in ('--remove-function-body', n)] +
         ['--no-malloc-may-fail', '--drop-unused-functions', '--ensure-one-backedge-per-target', out, out])
    return out, noop


def loops(goto):
    rc, o = sh(['goto-instrument', '--show-loops', '--json-ui', goto], 120)
    res = []
    try:
        for e in json.loads(o):
            for l in e.get('loops', []):
                res.append((l['name'], l.get('sourceLocation', {})))
    except Exception:
        for m in re.finditer(r'^Loop (\S+):', o, re.M):
            res.append((m.group(1), {}))
    return res


def run(name, meta, timeout=300, mem_gb=12, mem_checks=False, keepfn=None, unwind=None, patterns=(), field=1200, extra=(), trace=False, keep=None, noslice=False):
    """Returns dict(status=ok|fail|unknown, failed=[(prop,desc)], props=n, ...)"""
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='kv_')
    try:
        goto, noop = prepare(meta, work, keepfn, mem_checks)
        uw = unwind or meta['unwind'] or 40
        us = []
        if patterns:
            for ln, loc in loops(goto):
                for pat, n in patterns:
                    if re.search(pat, ln) or re.search(pat, loc.get('function', '') + ' ' + loc.get('file', '')):
                        us.append('%s:%d' % (ln, n))
                        break
        flags = [f for f in BASE_FLAGS if not (noslice and f == '--slice-formula')] + ['--unwind', str(uw), '--unwinding-assertions', '--max-field-sensitivity-array-size', str(field)]
        if not mem_checks:
            flags += ['--no-pointer-check', '--no-bounds-check']
        if us:
            flags += ['--unwindset', ','.join(us)]
        flags += list(extra)
        if trace:
            flags += ['--trace', '--json-ui']
        use = {}
        rc, out = sh(['cbmc', goto] + flags + ['--verbosity', '9' if keep else '8'], timeout, mem_gb=mem_gb, use=use)
        if keep:
            open(keep, 'w').write(out)
        r = dict(name=name, mb=use.get('mb'), rc=rc, wall=round(time.time() - t0, 1), unwind=uw)
        if trace:
            r['out'] = out
            return r
        props = re.findall(r'^\[([^\]]+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN)$', out, re.M)
        r['props'] = len(props)
        r['failed'] = [(p, d) for p, d, s in props if s == 'FAILURE']
        r['undecided'] = len([1 for p in props if p[2] == 'UNKNOWN'])
        r['solver_s'] = sum(float(x) for x in re.findall(r'^Runtime decision procedure: ([\d.e+-]+)s', out, re.M))
        m = re.search(r'^Runtime Symex: ([\d.e+-]+)s', out, re.M)
        r['symex_s'] = float(m.group(1)) if m else None
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', out)
        r['vccs'] = int(m.group(1)) if m else 0
        nobody = sorted(set(re.findall(r'no body for (?:function|callee) (\S+)', out)) - set(noop) - ({'std::ptr::drop_glue::<std::io::Error>:'} if noop else set()))
        r['nobody'] = nobody
        if nobody:
            r['status'] = 'unknown'
            r['why'] = 'no body for ' + ', '.join(nobody)[:300]
        elif 'VERIFICATION SUCCESSFUL' in out or 'VERIFICATION FAILED' in out:
            r['status'] = 'done'
        else:
            r['status'] = 'unknown'
            r['why'] = 'timeout' if rc == 124 else out[-600:]
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    # kv.py CRATE HARNESS [timeout] [unwind]
    crate, h = sys.argv[1], sys.argv[2]
    t = time.time()
    metas, log = build(crate, [h])
    print('build %.1fs' % (time.time() - t))
    if metas is None or h not in metas:
        print('\n'.join(l for l in log.splitlines() if 'Wl,' not in l and 'unstable' not in l)[-6000:])
        sys.exit(2)
    kw = {}
    if len(sys.argv) > 4 and sys.argv[4] != '-':
        kw['unwind'] = int(sys.argv[4])
    pats = []
    for a in sys.argv[5:]:
        if a == 'mem':
            kw['mem_checks'] = True
        elif ':' in a:
            p, n = a.rsplit(':', 1)
            pats.append((p, int(n)))
    r = run(h, metas[h], timeout=int(sys.argv[3]) if len(sys.argv) > 3 else 300, keep='/tmp/kv_%s.txt' % h, patterns=pats, **kw)
    for f in r.get('failed', []):
        print('FAILED', f)
    r.pop('failed', None)
    print(r)
    o = open('/tmp/kv_%s.txt' % h).read()
    import collections
    c = collections.Counter(re.sub(r'iteration.*?thread', '', l) for l in o.splitlines() if l.startswith(('Unwinding', 'Not unw')))
    for k, v in c.most_common(14):
        print(v, k[:170])
    print([l for l in o.splitlines() if 'size of program' in l or 'variables,' in l][:3])
