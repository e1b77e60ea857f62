"""Write DESIGN.md: design_body.md, table of planted bugs, coverage.  With --coverage, first take the coverage from evidence/"""
import glob
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
cov = here + '/coverage.json'
if '--coverage' in sys.argv:
    rows = {}
    for f in sorted(glob.glob(root + '/evidence/C*.json')):
        d = json.load(open(f))
        assert d['tier'] == 'quick' and d['coverage']['exhaustive'], f
        c = d['coverage']
        rows[d['property']] = [len(c['sections']), c['traces_validated_against_impl'], c['states'], c['transitions'],
                               '; '.join('%s (%s)' % (s['name'], s['bounds'].replace('all operation sequences up to length', 'length').replace(' over an alphabet of', ' over').replace(' cases, enumerated completely', ''))
                                         for s in c['sections'][:8]) + ('; ...' if len(c['sections']) > 8 else '')]
    json.dump(rows, open(cov, 'w'), indent=1)
out = [open(here + '/design_body.md').read().rstrip(), '']
res = json.load(open(here + '/seed_results.json'))
out += ['| planted bug | property | what it needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f))
    n = f.split('/')[-2]
    out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), res.get(n, '?')))
out += ['', open(here + '/design_tail.md').read().rstrip(), '', '## Coverage of the quick tier', '',
        'Sections with their bounds: (n) = n cases of a sweep, (length k over n) = all sequences of up to k out of n operations.', '',
        '| check | sections | executions | states | transitions | spaces |', '|---|---|---|---|---|---|']
for i, r in json.load(open(cov)).items():
    out.append('| %s | %s |' % (i, ' | '.join(map(str, r))))
open(root + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
