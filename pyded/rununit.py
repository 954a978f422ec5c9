"""Run verification units: python3 -m pyded.rununit PROPERTY BUDGET OUT.json UNIT [OUT.json UNIT ...]"""
import sys
import os
import json
import time
import traceback
import resource
import signal

REPO = os.environ.get('VP_REPO', '/repo')


def main():
    pid, secs = sys.argv[1], float(sys.argv[2])
    resource.setrlimit(resource.RLIMIT_AS, (int(6e9), int(6e9)))
    sys.setrecursionlimit(20000)
    for i in range(3, len(sys.argv), 2):
        one(pid, sys.argv[i + 1], sys.argv[i], secs)


def vacuous(obls):
    """no path that carries a discharged postcondition has satisfiable hypotheses (as far as the solver can tell)"""
    from . import smt, terms
    seen = set()
    bad = None
    posts = [o for o in obls if o['kind'] == 'post' and o['status'] == 'discharged' and o.get('gterms')]
    for o in posts:
        k = tuple(h.id for h in o['hterms'])
        if k in seen:
            continue
        seen.add(k)
        g = o['gterms']
        if len(g) == 1 and not isinstance(g[0], terms.T):
            continue
        g = g[0] if len(g) == 1 else (terms.eq(*g) if g[0].sort in 'IR' else terms.TRUE)
        if terms.FALSE not in o['hterms'] and not smt.entails(list(o['hterms']) + [g], terms.FALSE):
            return None
        bad = o['name']
        if len(seen) > 40:
            return None
    return bad


class Stop(BaseException):
    """the deadline of the check: what was decided so far is reported"""


def stop(sig, frame):
    raise Stop()


def one(pid, unit, out, secs):
    t0 = time.time()
    signal.signal(signal.SIGTERM, stop)
    res = dict(property=pid, unit=unit, status='error', obligations=[], inlined=[], contracts=[], trusted=[], paths=0, covers=0)
    ctx = None
    from . import units, smt, prove, values, contract, hints
    base = dict(smt.STATS)
    try:
        ctx = contract.Ctx(REPO, secs)
        fn = dict(units.UNITS[pid])[unit]
        fn(ctx)
        res['status'] = 'done'
        v = vacuous(ctx.I.obls)
        if v:
            res['status'], res['error'] = 'unsupported', 'contradictory hypotheses under %s' % v
    except values.Unsupported as e:
        res['status'], res['error'] = 'unsupported', str(e)[:500]
    except prove.Timeout:
        res['status'], res['error'] = 'timeout', 'path budget'
    except RecursionError:
        res['status'], res['error'] = 'unsupported', 'recursion'
    except Stop:
        res['status'], res['error'] = 'timeout', 'deadline'
    except MemoryError:
        res['status'], res['error'] = 'timeout', 'memory'
    except values.PyExc as e:
        res['status'], res['error'] = 'unsupported', 'interpreter exception %s' % e
    except Exception as e:
        res['status'], res['error'] = 'error', '%s: %s' % (type(e).__name__, traceback.format_exc()[-1500:])
    signal.signal(signal.SIGTERM, signal.SIG_IGN)
    if ctx is not None:
        I = ctx.I
        hs = []
        for o in I.obls:
            if o['status'] == 'failed' and o['kind'] == 'post' and len(hs) < 60:
                try:
                    hs += hints.hints(o)
                except Exception:
                    pass
        for o in I.obls:
            o.pop('hterms', None)
            o.pop('gterms', None)
            if o['status'] == 'discharged':
                o['goal'] = o['goal'][:160]
        res.update(obligations=I.obls, inlined=sorted(I.inlined), contracts=sorted(I.used_contracts), trusted=sorted(I.trusted),
                   paths=ctx.paths, covers=ctx.covers, hints=hs, notes=ctx.notes,
                   root=sorted(getattr(ctx, 'roots', [])))
    res['smt'] = {k: v - base.get(k, 0) for k, v in smt.STATS.items()}
    res['wall'] = time.time() - t0
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f, default=str)
    os.replace(tmp, out)
    if res.get('error') == 'deadline':
        sys.exit(0)


main()
