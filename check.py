#!/usr/bin/env python3
"""check.py PROPERTY : decide one property on /repo's current source.

1. every verification unit of the property is executed by pyded (symbolic VC generation over the real source,
   discharge by the sum calculus and z3), in parallel processes;
2. the same contracts are evaluated on the real package for generated inputs (violation search, replay, and the
   labelled bounded stand-in for anything outside the verifier's reach)."""
import json
import os
import subprocess
import sys
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
REAL = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
JOBS = int(os.environ.get('VP_JOBS', '8'))


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', VP_REPO=REPO, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MPLBACKEND='Agg', PYTHONHASHSEED='0')
    return e


def unit_names(pid):
    r = subprocess.run([VT, '-c', 'import json;from pyded import units as u;print(json.dumps([[n,u.HEAVY[(%r,n)]] for n,_ in u.UNITS.get(%r,[])]))'
                        % (pid, pid)], cwd=HERE, env=env(), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-2000:])
    return json.loads(r.stdout)


def concrete(pid, secs, seed, tier, out, hints=None):
    a = [REAL, os.path.join(HERE, 'concrete', 'run.py'), pid, str(secs), str(seed), tier, out]
    if hints is not None:
        hp = out + '.hints'
        json.dump(hints, open(hp, 'w'))
        a.append(hp)
    return subprocess.Popen(a, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def canon_hints(units):
    """solver assignments in the vocabulary of the case generators"""
    out = []
    for u in units:
        f = u['unit'].split('(')[0]
        for h in u.get('hints', []) or []:
            ms = [v for k, v in h.items() if k.startswith('TG@') or k == 'm']
            d = dict(func=f, N=int(h.get('N', 20)), rate=h.get('rate', 1.0) if 1e-6 < abs(h.get('rate', 1.0)) < 1e6 else 1.0,
                     m=[int(m) for m in ms if m >= 1] or [1], raw=h)
            if d not in out:
                out.append(d)
    return out[:120]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    deadline = t0 + (600 if tier == 'quick' else 3000)
    secs_conc = float(os.environ.get('VP_CONC', '15' if tier == 'quick' else '240'))
    work = os.path.join(HERE, 'evidence', 'work', pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    names = unit_names(pid)
    todo = sorted(names, key=lambda x: -x[1])
    cout = os.path.join(work, 'concrete.json')
    cp = concrete(pid, secs_conc, seed, tier, cout)
    running, results, k = {}, [], 0
    budget = 600 if tier == 'quick' else 2000
    blank = lambda n, st, why, w: dict(unit=n, status=st, error=why, obligations=[], inlined=[], contracts=[], trusted=[], paths=0, covers=0,
                                       wall=w, smt={})
    # one process per unit; the small ones (weight 0) of a property share processes
    jobs = [[n] for n, w in todo if w]
    tiny = [n for n, w in todo if not w]
    per = max(1, min(JOBS, (len(tiny) + 2) // 3))
    jobs += [tiny[i::per] for i in range(per) if tiny[i::per]]
    late_sent = settled = False
    while jobs or running:
        if cp.poll() is not None and not settled:
            settled = True
            if os.path.exists(cout) and json.load(open(cout))['fails']:
                deadline = min(deadline, time.time() + 60)     # a failing input of the real code is there
        while jobs and len(running) < JOBS:
            j = jobs.pop(0)
            a, outs = [], []
            for n in j:
                o = os.path.join(work, 'unit%d.json' % k)
                k += 1
                a += [o, n]
                outs.append((n, o))
            running[j[0]] = (subprocess.Popen([VT, '-m', 'pyded.rununit', pid, str(budget)] + a, cwd=HERE, env=env(),
                                              stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), outs, time.time())
        for key in list(running):
            p, outs, st = running[key]
            late = time.time() > deadline
            if p.poll() is None and not late:
                continue
            if p.poll() is None:
                if not late_sent:
                    for q, _, _ in running.values():
                        q.terminate()       # units report what they decided so far
                    late_sent = True
                try:
                    p.wait(timeout=15)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                err = 'deadline'
            else:
                err = 'no result (rc %s) %s' % (p.returncode, p.stderr.read()[-500:])
            for n, o in outs:
                results.append(json.load(open(o)) if os.path.exists(o) else blank(n, 'timeout' if late else 'error', err, time.time() - st))
            del running[key]
        if time.time() > deadline:
            results += [blank(n, 'timeout', 'not started', 0) for j in jobs for n in j]
            jobs = []
        time.sleep(0.05)
    # a unit whose solver gave up gets one more try: alone in its process, other random seed
    open_ = lambda r: sum(o['status'] != 'discharged' for o in r['obligations']) + (r['status'] in ('timeout', 'error'))
    settled_bad = os.path.exists(cout) and json.load(open(cout))['fails']
    again = [r for r in results if open_(r)] if not settled_bad else []
    again.sort(key=lambda r: r.get('wall', 0))
    stop = t0 + 660 if tier == 'quick' else t0 + 3300
    second = {}
    while again or second:
        while again and len(second) < JOBS and time.time() < stop - 30:
            r = again.pop(0)
            o = os.path.join(work, 'unit%d.json' % k)
            k += 1
            second[o] = (r, subprocess.Popen([VT, '-m', 'pyded.rununit', pid, str(budget), o, r['unit']], cwd=HERE,
                                             env=dict(env(), PYDED_SEED='1'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        if time.time() >= stop - 30:
            again = []
        for o in list(second):
            r, q = second[o]
            if q.poll() is None and time.time() > stop:
                q.kill()
                q.wait()
            if q.poll() is not None:
                del second[o]
                if os.path.exists(o):
                    n = json.load(open(o))
                    if (n['status'] == 'done', -open_(n)) > (r['status'] == 'done', -open_(r)):
                        results[results.index(r)] = n
        time.sleep(0.05)
    results.sort(key=lambda r: r['unit'])
    errs = []
    try:
        _, se = cp.communicate(timeout=max(10, deadline + 60 - time.time()))
    except subprocess.TimeoutExpired:
        cp.kill()
        se = 'timeout'
    conc = json.load(open(cout)) if os.path.exists(cout) else None
    if conc is None:
        errs.append('concrete contract check: %s' % se[-1500:])
        conc = dict(evaluations=0, distinct=0, samples=[], fails=[], known=[], wall=0)

    # -------------------------------------------------------------- verdict of the verifier
    failed, undecided, nob, ndis = [], [], 0, 0
    kinds = {}
    for r in results:
        und = []
        if r['status'] != 'done':
            und.append(r['status'] + ': ' + str(r.get('error', ''))[:300])
        for o in r['obligations']:
            nob += 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
            if o['status'] == 'discharged':
                ndis += 1
            elif o['status'] == 'failed' and o['kind'] == 'post':
                failed.append((r, o))
            else:
                und.append('%s %s: %s' % (o['kind'], o['status'], o['name']))
        if r['status'] == 'done' and (not r['obligations'] or not r['covers']):
            und.append('no obligation or no reachable exit')
        if und:
            undecided.append(dict(unit=r['unit'], why=und[:6]))
    fails = list(conc['fails'])
    extra = None
    if (failed or undecided) and not fails:
        # violation search directed by the solver's assignments; bounded stand-in for undecided units
        hints = canon_hints(results)
        eo = os.path.join(work, 'concrete2.json')
        left = max(20, min(120 if failed else 60, t0 + 800 - time.time()))
        p = concrete(pid, left, seed + 1000, tier, eo, hints)
        try:
            p.communicate(timeout=left + 30)
        except subprocess.TimeoutExpired:
            p.kill()
        if os.path.exists(eo):
            extra = json.load(open(eo))
            fails += extra['fails']
            conc['known'] = sorted(set(conc['known']) | set(extra['known']))
    violations = 0
    rc = 0
    for kid in conc['known']:
        print('KNOWN-FINDING: property=%s %s' % (pid, kid))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, '%s.json' % pid)
    if os.path.exists(rp):
        os.remove(rp)
    if fails:
        violations += 1
        rc = 1
        f = fails[0]
        json.dump(dict(property=pid, case=f['case'], mismatches=f['mismatches'],
                       failed_obligations=[dict(unit=r['unit'], name=o['name'], goal=o['goal'][:1500]) for r, o in failed[:6]],
                       how='%s %s/concrete/run.py --replay %s' % (REAL, HERE, rp)), open(rp, 'w'), indent=1)
        for m in f['mismatches'][:3]:
            print('  ' + m)
        for r, o in failed[:4]:
            print('  failed obligation: %s' % o['name'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    elif failed:
        violations += 1
        rc = 1
        json.dump(dict(property=pid, case=None, failed_obligations=[
            dict(unit=r['unit'], name=o['name'], kind=o['kind'], line=o.get('line'), goal=o['goal'], hypotheses=o['hyps']) for r, o in failed[:20]],
            verifier='pyded: obligation not provable; no failing input found in %d + %d cases'
            % (conc['evaluations'], (extra or {}).get('evaluations', 0))), open(rp, 'w'), indent=1)
        for r, o in failed[:4]:
            print('  failed obligation: %s' % o['name'])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    under = sorted(set(q for r in results for q in r['inlined']) | set(r.get('rootfn', '') for r in results) - {''})
    contracts = sorted(set(q for r in results for q in r['contracts']))
    trusted = sorted(set(q for r in results for q in r['trusted']))
    if not results or not nob:
        undecided.append(dict(unit='*', why=['no obligations were generated']))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=violations,
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd='VP_REPO=%s python3-vt -m pyded.rununit %s 600 <out.json> <unit> (each unit; run by check.py)' % (REPO, pid),
                  trusted_base=['pyded verification-condition generator and sum calculus (this repository, /verif/pyded)', 'z3 %s' % z3v(),
                                'numpy/scipy/python built-in models in /verif/pyded/npmodel.py, npfuncs.py'] + trusted,
                  units=[dict(unit=r['unit'], status=r['status'], obligations=len(r['obligations']),
                              discharged=sum(o['status'] == 'discharged' for o in r['obligations']), seconds=round(r.get('wall', 0), 2),
                              return_paths=r['covers'], paths=r['paths']) for r in results],
                  obligation_kinds=kinds,
                  backends=backends(results), functions_under_contract=under, callee_contracts_used=contracts,
                  undecided_units_bounded_only=undecided,
                  failed_obligations=[dict(unit=r['unit'], name=o['name']) for r, o in failed[:50]],
                  bounded_concrete=dict(note='bounded: generated inputs on the real package, never counted as proved',
                                        evaluations=conc['evaluations'] + (extra or {}).get('evaluations', 0), distinct_cases=conc['distinct'],
                                        samples=conc['samples'], seconds=round(conc['wall'], 1), errors=errs)),
              assumptions=ASSUME)
    json.dump(ev, open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print('%s: %d/%d obligations discharged in %d units, %d undecided units, %d concrete cases, %.0fs'
          % (pid, ndis, nob, len(results), len(undecided), conc['evaluations'] + (extra or {}).get('evaluations', 0), time.time() - t0))
    for u in undecided:
        print('  undecided (bounded only): %s: %s' % (u['unit'], '; '.join(u['why'])[:300]))
    if errs and not rc:
        print('  note: ' + errs[0][-400:])
    return rc


def backends(results):
    q = sum((r.get('smt') or {}).get('queries', 0) for r in results)
    t = sum((r.get('smt') or {}).get('time', 0.0) for r in results)
    ot = sum(o.get('time', 0.0) for r in results for o in r['obligations'])
    return dict(z3_queries=q, z3_seconds=round(t, 1), prover_seconds=round(ot, 1))


def z3v():
    try:
        return subprocess.run([VT, '-c', 'import z3;print(z3.get_version_string())'], capture_output=True, text=True).stdout.strip()
    except Exception:
        return '?'


ASSUME = [
    'floating-point arithmetic is treated as exact real arithmetic (rounding, overflow and underflow are not modelled)',
    'input series are finite real numbers except where a property speaks of NaN; rate > 0',
    'models of numpy, scipy, math and built-in functions are trusted (validated against the real libraries by the concrete runs)',
    'console output, warnings machinery and memory exhaustion are not modelled',
]

if __name__ == '__main__':
    sys.exit(main())
