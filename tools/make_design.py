#!/usr/bin/env python3-vt
"""writes DESIGN.md: the head, and what the specifications, planted bugs and findings say themselves"""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import driver
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
caught = {}
if os.path.exists(HERE + '/tools/caught.json'):
    caught = json.load(open(HERE + '/tools/caught.json'))
out = [open(HERE + '/tools/design_head.md').read(), '## 5. Property by property\n']
for p in props:
    i = p['id']
    m = importlib.import_module('specs.' + i)
    out.append('### %s %s\n' % (i, p['title']))
    out.append((m.__doc__ or '').strip() + '\n')
    names = {}
    for t in driver.TASKS[i]:
        a, _, b = t.name.partition(': ')
        names.setdefault(a, []).append(b)
    out.append('Proved (tasks): ' + '; '.join(a + (' (' + ', '.join(x for x in b if x) + ')' if any(b) else '') for a, b in names.items()) + '.\n')
    fs = sorted(set(sum([list(t.functions) for t in driver.TASKS[i]], [])))
    short = lambda f: '.'.join(f.split('.')[-2:]) if f.split('.')[-2][:1].isupper() else f.split('.')[-1]
    out.append('Functions under contract: ' + ', '.join('`%s`' % short(f) for f in fs) + '.\n')
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('Assumed: ' + '; '.join(m.ASSUMPTIONS) + '.\n')
    if getattr(m, 'BOUNDED_ONLY', None):
        out.append('Bounded only: ' + '; '.join(m.BOUNDED_ONLY) + '.\n')
    src = open('%s/bounded/%s.py' % (HERE, i)).read()
    out.append('Harness checks (bounded): ' + ', '.join(re.findall(r"^@check\('([^']*)'", src, re.M)) + '.\n')
out.append('## 6. Planted bugs and what catches them\n')
out.append('Every one builds, passes the stable tests, and has a demonstration. "input": the check gives a failing input; '
           '"obligation": the verifier refutes an obligation; "undecided": the proof no longer goes through.\n')
out.append('| bug | needs | breaks | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    out.append('| %s | %s | %s | %s |' % (d, m['needs'], m['what_it_breaks'], caught.get(d, '?')))
kf = json.load(open(HERE + '/known_findings.json'))
out.append('\n## 7. Defects found\n')
out.append('Repaired in /repo (a `fix:` commit each; the check reports them again if they return):\n')
for f in kf['fixed']:
    x = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    out.append('* %s `%s` %s' % x.groups())
out.append('\nRecorded, not repaired: ' + ('none.' if not kf['findings'] else '') + '\n')
for k in kf['findings']:
    out.append('* %s %s' % (k['property'], k['what']))
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
