#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from lpa/meta.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from lpa.meta import PROPS, NA, PATHNOTE, TRUST
from lpa.rules import REGISTRY
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'].strip(),
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': w} for a, b, w in p['state']],
                        'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': [],
     'notes': 'One static analyser (tool/extract.cpp on libclang-cpp, lpa/ in Python) decides all properties; no hooks in /repo. '
              'thorough repeats the rule with the enlarged path and loop budgets and the rules\' thorough entries.'}
for p in PROPS:
    if p['id'] not in REGISTRY:
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s --thorough' % p['id'],
                        'evidence_file': 'evidence/%s.json' % p['id'],
                        'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': PATHNOTE + p['note'] + ' ' + TRUST})
for p in NA:
    m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')

# ---------------------------------------------------------------- DESIGN.md
import glob
matrix = json.load(open(H + '/selftest/matrix.json'))
metas = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in sorted(glob.glob(H + '/seeded/*/meta.json'))}
o = open(H + '/tool/design_head.md').read().rstrip() + '\n\n## The properties and how each is decided\n'
for p in PROPS:
    o += '\n### %s: %s\n\n' % (p['id'], p['title'])
    o += p['statement'].strip() + '\n\n'
    o += '* Anchored in: %s.\n' % '; '.join('%s (%s)' % (a, b) for a, b in p['mech'])
    o += '* Quantifier: %s.\n' % p['quant']
    o += '* Method: %s. %s\n' % (p['technique'], p['rule'].strip())
    o += '* Why tests cannot settle it: %s\n' % p['why']
    if p['note'].strip():
        o += '* Limits: %s\n' % p['note'].strip()
    mine = [i for i, m in metas.items() if m['property'] == p['id']]
    if mine:
        o += '* Seeded changes: ' + '; '.join('%s (%s; caught by %s)' % (i, metas[i]['what_it_breaks'], ', '.join(matrix.get(i, ['?']))) for i in mine) + '.\n'
o += '\n## Not applicable\n\n'
for p in NA:
    o += '* %s, %s: %s\n' % (p['id'], p['title'], p['reason'])
o += '\n## Defects found in LampPost\n\nEach was shown against the real code before it was repaired; all are `fix:` commits in /repo and listed in `known_findings.json` as fixed, which suppresses nothing. No finding is open.\n\n'
for x in json.load(open(H + '/known_findings.json')):
    if x['status'] == 'fixed':
        o += '* %s, %s: %s\n' % (x['property'], x['commit'], x['what'])
    else:
        o += '* OPEN %s: %s\n' % (x['property'], x['text'])
o += """
## Testing the machinery

* `selftest/run.py` applies about 740 small changes (`cases_*.py`) to scratch copies and runs every check on each: behaviour-preserving
  ones (`same`) must leave all checks quiet, breaking ones (`bug`) must be reported by the property they break. Cases were written
  from the property texts, and every miss or false alarm led to a change of the analyser or of the text.
* `selftest/seeds.py` and `seed.py` hold the %d planted bugs kept in `seeded/`, each confirmed to build, to pass the tests and to be shown by
  its demonstration; `matrix.py` runs every check on each of them. Check against its seeded change: all caught by the check of
  their own property; other checks that report them as well are named above.
""" % len(metas)
open(H + '/DESIGN.md', 'w').write(o)
