"""Assembles /verif/DESIGN.md: DESIGN.head.md, DESIGN.props.md, the fixes, the planted bugs, DESIGN.tail.md."""
import json
import os

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
out = [open('tools/design/head.md').read(), open('tools/design/props.md').read()]
out.append('## Defects found and repaired\n\n`known_findings.json` lists them as `fixed`; nothing is suppressed, and there is no unrepaired finding.\n\n| property | commit | what |\n|---|---|---|\n')
for e in json.load(open('known_findings.json')):
    out.append('| %s | %s | %s |\n' % (e['property'], e['commit'], e['what'].split(e['commit'])[1].strip()))
r = json.load(open('tools/seed_results.json'))
out.append('\n## Planted bugs\n\nEach bug of `seeded/` is judged by the check of its own property (`tools/seedtool.py` confirms patch, build, tests, demonstration and runs the check).\n\n| bug | property | quick check | needs |\n|---|---|---|---|\n')
for k in sorted(r):
    if os.path.isdir('seeded/' + k):
        out.append('| %s | %s | %s | %s |\n' % (k, r[k]['property'], r[k]['result'], r[k]['needs'].replace('|', '/')))
if os.path.exists('tools/design/tail.md'):
    out.append('\n' + open('tools/design/tail.md').read())
open('DESIGN.md', 'w').write(''.join(out))
