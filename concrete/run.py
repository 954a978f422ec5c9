"""Concrete contract checks: run.py PROP SECONDS SEED TIER OUT [HINTS.json] | run.py --replay FILE"""
import sys
import os
import json
import time
sys.dont_write_bytecode = True
REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np  # noqa: E402


def known(pid, case, bad):
    """listed findings, each identified by the call site and the failing condition"""
    p = os.path.join(os.path.dirname(HERE), 'known_findings.json')
    hit = []
    try:
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == pid and all(k['match'] in b for b in bad):
                hit.append(k)
    except FileNotFoundError:
        pass
    return hit


def main():
    from concrete import props, props2, props3, props4, props5, props6  # noqa: F401
    import allantools
    where = os.path.dirname(os.path.abspath(allantools.__file__))
    assert where == os.path.join(os.path.abspath(REPO), 'allantools'), where
    if sys.argv[1] == '--replay':
        c = json.load(open(sys.argv[2]))
        if not c.get('case'):
            print(json.dumps(c, indent=1))
            print('no failing input was found for this obligation')
            return 0
        bad = props.REG[c['property']].run(c['case'])
        print('\n'.join(bad) if bad else 'the property holds on this input')
        return 1 if bad else 0
    pid, secs, seed, tier, out = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    hints = json.load(open(sys.argv[6])) if len(sys.argv) > 6 else []
    P = props.REG[pid]
    rng = np.random.default_rng([seed, int(pid[1:])])
    t0 = time.time()
    n, fails, samples, seen, knownhits = 0, [], [], set(), []
    maxn = int(os.environ.get('VP_MAXCASES', '0')) or 10 ** 9
    for case in P.cases(rng, tier, hints):
        if time.time() - t0 > secs or n >= maxn:
            break
        bad = P.run(case)
        n += 1
        key = json.dumps(case, sort_keys=True)
        seen.add(hash(key))
        if len(samples) < 3 and n % 7 == 1:
            samples.append(key[:400])
        if bad:
            k = known(pid, case, bad)
            if k:
                knownhits += [x['id'] for x in k]
                continue
            fails.append(dict(case=case, mismatches=bad))
            if len(fails) >= 3:
                break
    json.dump(dict(property=pid, evaluations=n, distinct=len(seen), samples=samples, fails=fails, known=sorted(set(knownhits)),
                   wall=time.time() - t0), open(out, 'w'))
    return 0


if __name__ == '__main__':
    sys.exit(main())
