#!/usr/bin/env python3-vt
"""run1.py Cnn [task-substring]: verbose verifier run (development)"""
import importlib, sys
sys.path.insert(0, '/verif')
from pyvc import driver
prop = sys.argv[1]
importlib.import_module('specs.' + prop)
for t in driver.TASKS[prop]:
    if len(sys.argv) > 2 and sys.argv[2] != '-q' and sys.argv[2] not in t.name: continue
    r = driver.run_task(t, quiet=False) if '-q' not in sys.argv else driver.run_task(t)
    print('%-34s %s paths=%d live=%d %.2fs solver=%.2f' % (r['task'], 'OK ' if driver.proved(r) else 'BAD', r['paths'], r['live_paths'], r['wall'], r['solver']), [c for c,v in r['covers'].items() if not v])
    for u in r['unsupported'][:1]: print('   UNSUPPORTED', u[-1500:])
    for o in r['obligations']:
        if o['status'] != 'proved': print('   ', o['name'], o['status'], o['vcs'], o['discharged'], str(o['refuted'])[:700], str(o['unknown'])[:700])
    if '-v' in sys.argv:
        for o in r['obligations']: print('      ', o['name'], o['vcs'], o['backends'])
