"""Regenerate MANIFEST.json from properties.jsonl and the unit registry."""
import json
import sys
sys.path.insert(0, '/verif')
from pyded import units  # noqa: E402

NA = {
}
NOTE = {}
exec(open('/verif/tools/notes.py').read())
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in ids:
    if p in units.UNITS:
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p,
                           technique='contract-based deductive verification (pyded: symbolic VC generation over the real source, sum calculus + z3)',
                           level='proof', level_note=NOTE.get(p, DEFAULT)))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'not yet under contract')))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
