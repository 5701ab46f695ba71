#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.

Builds the contract harnesses that serve the property, lets the verifiers discharge
their obligations, replays failed ones natively, writes evidence/PROPERTY.json.
Exit 0: nothing failed; exit 1 and a VIOLATION line: an obligation failed."""
import json, os, re, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/tools')
import kv, table, known
from concurrent.futures import ThreadPoolExecutor

T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMIT = 830 if TIER == 'quick' else 3 * 3600
WORK = VERIF + '/work/%s' % PROP
REPLAYS = VERIF + '/replays'
MEM = 27  # GB for concurrent solvers


def left(reserve=0):
    return LIMIT - reserve - (time.time() - T0)


def log(*a):
    print(*a, flush=True)


def tags(desc):
    m = re.match(r'((?:P\d\d ?)+):', desc)
    return m.group(1).split() if m else []


class Mem:
    """Admits jobs while their expected memory fits."""
    def __init__(self, gb):
        self.free, self.cv = gb, threading.Condition()

    def __enter__(self):
        return self

    def take(self, n):
        with self.cv:
            while self.free < n:
                self.cv.wait()
            self.free -= n

    def give(self, n):
        with self.cv:
            self.free += n
            self.cv.notify_all()


def classify(h, r):
    """Obligations of this property that failed, and why the run is inconclusive (or None)."""
    bad, why = [], None
    if r['status'] != 'done':
        return [], r.get('why') or 'no answer'
    covered = 0
    for p, d in r['failed']:
        if '.cover.' in p:
            covered += 1
        elif PROP in tags(d):
            bad.append((p, d))
        elif tags(d):
            pass  # another property's obligation
        elif d.startswith('MODEL'):
            why = d
        elif p.startswith(('__rust_dealloc', '__rust_realloc')):
            pass  # artefacts of Kani's deallocation model
        elif 'unwinding assertion' in d or 'recursion unwinding' in d:
            why = 'unwinding bound: ' + p[-80:]
        elif h.panics and PROP == 'P06':
            bad.append((p, 'P06: ' + d))
        elif 'not currently supported' in d or 'unsupported' in d.lower():
            why = d[:160]
    if not bad and not why and covered == 0:
        why = 'vacuous: no run reaches the success postcondition'
    return bad, why


def run_kani(sel, res):
    for crate in sorted({h.crate for h in sel}):
        hs = [h for h in sel if h.crate == crate]
        for feat in sorted({h.feat for h in hs}):
            fs = [h for h in hs if h.feat == feat]
            metas, out = kv.build(VERIF + '/' + crate, [h.name for h in fs], timeout=max(60, min(600, left(60))), features=feat.split(',') if feat else None, work=WORK + '/goto')
            log('%s: built %d harnesses at %.0f s' % (crate, len(fs), time.time() - T0))
            if (metas is None or any(h.name not in metas for h in fs)) and any(h.solo for h in fs):
                # a contract stub's anchor is gone: that harness is inconclusive, the others still run
                for h in fs:
                    if h.solo:
                        res[h.key] = dict(h=h, status='unknown', why='a stubbed callee no longer exists under its name', failed=[], wall=0)
                fs = [h for h in fs if not h.solo]
                if not fs:
                    continue
                metas, out = kv.build(VERIF + '/' + crate, [h.name for h in fs], timeout=max(60, min(600, left(60))), features=feat.split(',') if feat else None, work=WORK + '/goto')
            if metas is None or any(h.name not in metas for h in fs):
                err = '\n'.join(l for l in out.splitlines() if l.startswith('error'))[:1500]
                for h in fs:
                    res[h.key] = dict(h=h, status='unknown', why='does not build: ' + err[:400], failed=[], wall=0)
                log('BUILD FAILED', err)
                continue
            yield fs, metas


def main():
    sel = [h for h in table.TABLE if PROP in h.props and (TIER == 'thorough' or h.tier == 'q')]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    res = {}
    violations = []
    mem = Mem(MEM)

    def job(h, meta):
        mem.take(h.gb)
        try:
            t = min(h.t if TIER == 'quick' else 3 * h.t, left(90))
            if t < 30:
                return dict(name=h.name, status='unknown', why='no time left', failed=[], wall=0)
            try:
                r = kv.run(h.name, meta, timeout=t, mem_gb=max(12, h.gb), mem_checks=h.mem, keepfn=h.keep, patterns=h.pats, field=h.field)
                if any('ephemeral_vrf_program' in n for n in r.get('nobody', ())) and h.keep:
                    r = kv.run(h.name, meta, timeout=t, mem_gb=max(12, h.gb), mem_checks=h.mem, patterns=h.pats, field=h.field)
                return r
            except Exception as e:
                return dict(name=h.name, status='unknown', why=str(e)[:500], failed=[], wall=0)
        finally:
            mem.give(h.gb)

    with ThreadPoolExecutor(8) as ex:
        futs, vf = [], None
        if PROP in table.VERUS:
            import vrun
            vf = ex.submit(vrun.run, PROP, WORK, left)
        for fs, metas in run_kani(sel, res):
            for h in sorted(fs, key=lambda h: -h.cost):
                futs.append((h, metas[h.name], ex.submit(job, h, metas[h.name])))
        for h, meta, f in futs:
            r = f.result()
            r['h'], r['meta'] = h, meta
            res[h.key] = r
        vr = vf.result() if vf else []
    nat = []
    if PROP in table.NATIVE:
        import nrun
        nat = nrun.run(PROP, WORK, left, TIER, SEED)

    # ---- verdict
    incon = {}
    for n, r in res.items():
        bad, why = classify(r['h'], r)
        r['bad'] = bad
        if why:
            incon[n] = why
        log('%-34s %-8s %6.1f s  %s%s' % (n, r['status'], r.get('wall') or 0, 'FAILED ' + '; '.join(sorted({d for _, d in bad}))[:300] if bad else 'ok', '  [' + why[:160] + ']' if why else ''))
    for v in vr:
        log('%-34s %s' % (v['name'], v['status']), v.get('why', '')[:300])
        if v['status'] == 'unknown':
            incon[v['name']] = v.get('why', '')
    for v in nat:
        log('%-34s %s' % (v['name'], v['status']), v.get('why', '')[:300])
        if v['status'] == 'unknown':
            incon[v['name']] = v.get('why', '')

    # a modular harness's failure counts only if the version over the real bodies fails too
    for n, r in res.items():
        if r['bad'] and r['h'].alt and r['h'].alt in res and not res[r['h'].alt]['bad'] and r['h'].alt not in incon:
            incon[n] = 'callee contract no longer fits; real bodies verified instead'
            r['bad'] = []
    found = []
    import replay
    for n, r in sorted(res.items()):
        if r['bad']:
            found.append(replay.make(PROP, n, r, WORK, REPLAYS, left, SEED))
    for v in vr + nat:
        if v['status'] == 'failed':
            path = REPLAYS + '/%s_%s.txt' % (PROP, re.sub(r'\W+', '_', v['name']))
            text, conc = 'property %s\nobligation %s\n%s\n' % (PROP, v['name'], v.get('why', '')), v.get('concrete', False)
            if not conc and PROP in table.SEARCH and left() > 60:
                s = replay.search(PROP, table.SEARCH[PROP], WORK, left, SEED, 20)
                if s and s[1]:
                    text, conc = text + s[1], True
            if v in vr and PROP in vrun.RELY and not conc:
                # reported by the property of the failing contract itself
                incon[v['name']] = 'a contract this property relies on failed, without a failing input: ' + v.get('why', '')[:200]
                continue
            open(path, 'w').write(text)
            found.append(dict(path=path, concrete=conc, key=v['name'] + ' ' + v.get('why', '')[:80], what=v.get('why', '')[:200]))
    # inconclusive verifier runs: the same contract checked at run time (bounded, never counted as proof)
    fallback = {}
    for v in vr:
        if v['status'] == 'unknown' and PROP in table.SEARCH and left() > 60 and (PROP not in vrun.RELY or 'obligations of another' not in v.get('why', '')):
            s = replay.search(PROP, table.SEARCH[PROP], WORK, left, SEED, 30)
            if s is not None:
                fallback[v['name']] = s[0]
                if s[1]:
                    path = REPLAYS + '/%s_%s.txt' % (PROP, re.sub(r'\W+', '_', v['name']))
                    open(path, 'w').write(s[1])
                    found.append(dict(path=path, concrete=True, key=v['name'], what=s[1][:200]))
    for n in list(incon):
        if n in res and not res[n]['bad'] and left() > 60:
            s = replay.search(PROP, replay.native(PROP, res[n]['h']), WORK, left, SEED, 15)
            if s is not None:
                fallback[n] = s[0]
                if s[1]:
                    path = REPLAYS + '/%s_%s.txt' % (PROP, re.sub(r'\W+', '_', n))
                    open(path, 'w').write(s[1])
                    found.append(dict(path=path, concrete=True, key=n, what=s[1][:200]))

    real = []
    for f in found:
        k = known.match(PROP, f)
        if k:
            log('KNOWN-FINDING: property=%s %s' % (PROP, k))
        else:
            real.append(f)
    evidence(sel, res, vr, nat, incon, fallback, real)
    if real:
        real.sort(key=lambda f: not f['concrete'])
        f = real[0]
        for g in real[1:]:
            log('also failed:', g['key'], g['path'])
        log('VIOLATION property=%s replay=%s%s' % (PROP, f['path'], '' if f['concrete'] else ' no-failing-input-found'))
        return 1
    if incon:
        log('inconclusive:', json.dumps(incon)[:600])
    log('%s: no violation (%.0f s)' % (PROP, time.time() - T0))
    return 0


def evidence(sel, res, vr, nat, incon, fallback, real):
    obl = dis = 0
    fns = []
    for n, r in res.items():
        h = r['h']
        obl += max(1, r.get('props') or 0)
        if r['status'] == 'done' and n not in incon:
            dis += (r.get('props') or 0) - len(r['bad'])
        fns.append(dict(function=h.fn, contract=n, backend='Kani 0.68 / CBMC 6.11 / CaDiCaL', status='inconclusive' if n in incon else 'failed' if r['bad'] else 'discharged',
                        obligations=r.get('props', 0), vccs=r.get('vccs', 0), symex_s=r.get('symex_s'), solver_s=round(r.get('solver_s') or 0, 1), wall_s=r.get('wall'), bound=h.bounded or ''))
    for v in vr:
        obl += v.get('obligations', 1)
        dis += v.get('obligations', 1) if v['status'] == 'ok' else 0
        fns.append(dict(function=v['name'], contract=v.get('contract', ''), backend='Verus / Z3', status=v['status'], obligations=v.get('obligations', 1), solver_s=v.get('solver_s'), bound=''))
    for v in nat:
        obl += v.get('obligations', 1)
        dis += v.get('obligations', 1) if v['status'] == 'ok' else 0
        fns.append(dict(function=v.get('what', v['name']), contract=v['name'], backend='evaluation of closed terms', status=v['status'], obligations=v.get('obligations', 1), bound=''))
    info = table.INFO.get(PROP, {})
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=info.get('level', 'proof'),
              coverage=dict(obligations=obl, discharged=dis, checker_cmd='VERIF_TIER=%s python3 check.py %s' % (TIER, PROP),
                            trusted_base=table.TRUSTED + info.get('trusted', []), functions=fns, native=[{k: v for k, v in x.items() if k != 'why'} for x in nat],
                            inconclusive={k: v[:300] for k, v in incon.items()}, fallback_native_runs=fallback,
                            peak_mb=max([r.get('mb') or 0 for r in res.values()] + [0])),
              assumptions=table.ASSUMPTIONS + info.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=len(real))
    ev['coverage']['explanation'] = info.get('explanation', '')
    json.dump(ev, open(VERIF + '/evidence/%s.json' % PROP, 'w'), indent=1)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 0
        p = VERIF + '/evidence/%s.json' % PROP
        os.makedirs(os.path.dirname(p), exist_ok=True)
        json.dump(dict(property=PROP, tier=TIER, seed=SEED, level='other', coverage=dict(explanation='the check itself failed: ' + traceback.format_exc()[-500:]),
                       wall_s=round(time.time() - T0, 1), violations=0), open(p, 'w'))
    sys.exit(rc)
