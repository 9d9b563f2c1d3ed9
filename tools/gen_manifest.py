"""Writes MANIFEST.json from properties.jsonl and the checks present in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='property-based testing (generated cases, shrinking) against an independent oracle',
            level='exploration',
            level_note='Seeded Hypothesis search over the clauses of props/%s.py, each deciding every generated case '
                       'with an explicit reference model, metamorphic or differential relation within a stated '
                       'floating-point tolerance. It can refute, not prove; trusts NumPy/SciPy and the reference '
                       'models in pbt/.' % i.lower()))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./check setup', checks=checks, not_applicable=na,
         notes='No hooks: the checks only use the public API of /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
