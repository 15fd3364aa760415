#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the registry."""
import json, os, registry as R
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for pid, p in sorted({**R.PROPS, **R.NA}.items()):
    rows.append(dict(id=pid, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech'], hook_needed=None)))
    assert len(p['title']) <= 80, (pid, len(p['title']))
open(os.path.join(here, 'properties.jsonl'), 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
checks = []
for pid, p in sorted(R.PROPS.items()):
    checks.append(dict(property=pid, quick_cmd='./check %s --tier quick' % pid, thorough_cmd='./check %s --tier thorough' % pid, evidence_file='evidence/%s.json' % pid, technique=R.TECH, level=R.LEVEL,
      level_note=(p['note'] + ' ' if p['note'] else '') + 'Bounded: holds for all values within the per-entry bounds in the evidence. Trusts the LLVM-IR interpreter (cross-checked by native replay of path witnesses), Z3, and: ' + '; '.join(p['assumptions'] or ['the general assumptions']) + '.'))
json.dump(dict(version=1, setup_cmd='./check setup', checks=checks, not_applicable=[dict(property=k, reason=v['reason']) for k, v in sorted(R.NA.items())],
   notes='No hooks in /repo. All commands run from /verif and rebuild bitcode and native replay binaries from the current /repo sources.'), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(R.NA), 'not applicable')

import glob
L = [open(os.path.join(here, 'DESIGN.head.md')).read(), '\n## Properties\n\nAll use the method above; "thorough" runs the same entries with larger limits.\n']
for pid, p in sorted(R.PROPS.items()):
    L.append('### %s %s\n\n%s\n\nAnchors: %s. Why tests cannot settle it: %s\n\nBounds: %s. Entries:\n' % (pid, p['title'], p['statement'], ', '.join(p['files']), p['why'], p['qtext']))
    for e in p['entries']: L.append('- `%s` (%s): %s' % (e['fn'], e['unit'], e['bounds'] or 'see bounds above'))
    if p['note']: L.append('\nNote: ' + p['note'])
    L.append('')
if R.NA:
    L.append('## Not applicable\n')
    for k, v in sorted(R.NA.items()): L.append('- %s %s: %s' % (k, v['title'], v['reason']))
caught = json.load(open(os.path.join(here, 'tools/caught.json'))) if os.path.exists(os.path.join(here, 'tools/caught.json')) else {}
L.append('\n## Planted bugs\n\n| id | property | needs | result of that property\'s quick check |\n|---|---|---|---|')
for m in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m)); L.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], caught.get(i, 'not run')))
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(L) + '\n')
