#!/usr/bin/env python3
"""DESIGN.md = design_head.md + what follows from the properties, rules, seeds and findings."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(here, 'tools', 'design_data.py')).read(), ns)
out = open(os.path.join(here, 'tools', 'design_head.md')).read().rstrip() + '\n\n## The properties\n'
man = json.load(open(os.path.join(here, 'MANIFEST.json')))
na = man.get('not_applicable', [])
tech = {c['property']: c.get('technique', '') for c in man['checks']} if 'checks' in man else {}
seeds = {}
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
for l in open(os.path.join(here, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    out += '\n### %s %s\n\n' % (i, d['title'])
    if i in [x['property'] if 'property' in x else x['id'] for x in na]:
        out += 'Not claimed.\n'
        continue
    out += 'Method: %s. File: `%s`.\n\n' % (tech.get(i, ''), ns['FILES'].get(i, ''))
    try:
        ev = json.load(open(os.path.join(here, 'evidence', i + '.json')))
    except Exception:
        ev = {}
    src = open(os.path.join(here, 'checker', ns['FILES'][i])).read()
    txt = json.dumps(ev)
    rules = ns['rules_of'](ev)
    for r in rules:
        out += '* `%s`: %s\n' % r
    out += '\n' + ns['LIMITS'].get(i, '').strip() + '\n'
out += '\n## Not applicable\n\n'
for x in na:
    out += '* %s: %s\n' % (x.get('property', x.get('id')), x['reason'])
out += ns['NA']
out += '\n## False alarms, and what became of them\n' + ns['FALSE']
out += '\n## Defects found in alda\n\nThe repairs are the "fix:" commits in /repo; what was found and not repaired is a\nknown finding.\n\n'
for l in open(os.path.join(here, 'known-findings.txt')):
    if not l.startswith('#') and l.strip():
        out += '* ' + l.strip() + '\n'
out += '\n' + ns['OTHER']
out += '\n## Planted bugs\n\nEach is in `seeded/<id>/`, confirmed with `tools/try.py --demo seeded/<id>`: it\nbuilds, the tests pass, its demonstration fails with it and passes without, and\nthe check of its property reports it.\n\n| bug | caught by | what it needs |\n|---|---|---|\n'
for p in sorted(seeds):
    for n, d in seeds[p]:
        out += '| %s | %s | %s |\n' % (n, ns['CAUGHT'].get(n, p), d['needs'].replace('|', '/'))
open(os.path.join(here, 'DESIGN.md'), 'w').write(out)
print(len(out.splitlines()), 'lines')
