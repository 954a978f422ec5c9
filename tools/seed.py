"""Plant bugs: seed.py FILE... ; each FILE is a python literal dict
(id, property, file, edits [(old, new)...], demo, needs, what_it_breaks). Builds /verif/seeded/<id>/, confirms the demo on
both trees and the stable tests with the change in a scratch copy."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplcache',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
HEAD = '''"""Demonstration: exits 0 where the property holds on this input."""
import os, sys, io, contextlib, warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')
import numpy as np
import allantools
assert os.path.dirname(os.path.abspath(allantools.__file__)) == os.path.join(os.getcwd(), 'allantools')

'''


def tests(d):
    x = d + '/junit.xml'
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-p', 'no:xdist',
                    '--randomly-seed=0', '--randomly-dont-reorganize', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'],
                   cwd=d, env=ENV, capture_output=True)
    ok = 0
    bad = []
    for t in ET.parse(x).getroot().iter('testcase'):
        if any(c.tag in ('failure', 'error') for c in t):
            bad.append(t.get('classname', '') + '::' + t.get('name'))
        else:
            ok += 1
    return ok, bad


def one(path):
    b = eval(open(path).read())
    d = '/tmp/w/seed_' + b['id']
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    out = '/verif/seeded/' + b['id']
    tmp = '/tmp/w/seedout_' + b['id']
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(HEAD + b['demo'].strip() + '\n')
    open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    run = lambda: subprocess.run(['bash', tmp + '/demo.sh'], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
    r0 = run()
    fs = b['file'] if isinstance(b['file'], list) else [b['file']]
    for f in fs:
        s = open(d + '/' + f).read()
        for e in b['edits']:
            if len(e) == 3 and e[0] != f:
                continue
            o, n = e[-2:]
            if s.count(o) != 1:
                shutil.rmtree(d)
                return b['id'], 'edit matches %d times: %s' % (s.count(o), o[:60])
            s = s.replace(o, n)
        open(d + '/' + f, 'w').write(s)
    r1 = run()
    if r0.returncode or not r1.returncode:
        shutil.rmtree(d)
        return b['id'], 'demo: unchanged %d patched %d\n%s\n%s' % (r0.returncode, r1.returncode, r0.stdout[-300:] + r0.stderr[-500:], r1.stdout[-300:] + r1.stderr[-300:])
    diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
    ok, bad = tests(d)
    shutil.rmtree(d)
    stable = set(json.load(open('/tmp/w/base_bad.json'))) if os.path.exists('/tmp/w/base_bad.json') else set()
    new = [t for t in bad if t not in stable]
    if new:
        return b['id'], 'tests fail: %s' % new[:4]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    shutil.rmtree(tmp)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(out + '/meta.json', 'w'), indent=1)
    return b['id'], 'kept (%d tests pass)' % ok


if __name__ == '__main__':
    with cf.ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, sys.argv[1:]):
            print(*r, flush=True)
