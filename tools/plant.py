#!/usr/bin/env python3
"""plant.py id [id...] | --all : (re)build seeded/<id>/ from tools/bugdefs.py and confirm it:
applies, builds, stable tests pass, demo fails with it and passes without; then run the
property's check against it."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
from bugdefs import BUGS
DEMO_SH = '''#!/bin/bash
export PYTHONPATH=/repo PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 /opt/pypyvenv/bin/python -W ignore "$D/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def clean():
    sh('git', '-C', '/repo', 'checkout', '--', '.')


def stable():
    sh('bash', '/opt/vp/test.sh', '/tmp/plant-out.json')
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    got = json.load(open('/tmp/plant-out.json'))['passed']
    return [w for w in want if w not in got]


def make(b, test=True, check=True):
    d = '%s/seeded/%s' % (HERE, b['id'])
    assert not sh('git', '-C', '/repo', 'status', '--porcelain', '-uno').stdout
    try:
        for path, old, new in b['edits']:
            f = '/repo/' + path
            s = open(f).read()
            if s.count(old) != 1:
                return '%s: pattern occurs %d times in %s' % (b['id'], s.count(old), path)
            open(f, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', '/repo', 'diff').stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash', d + '/demo.sh', cwd='/repo')
        with_bug = r.returncode
        txt = ''
        if test:
            if sh('bash', '/opt/vp/build.sh').returncode:
                txt += ' BUILD FAILS'
            m = stable()
            if m:
                txt += ' TESTS FAIL %s' % [x.split('::')[1] for x in m]
        if check:
            c = sh('python3-vt', 'check.py', b['property'], cwd=HERE)
            out = c.stdout.decode()
            how = []
            if 'VIOLATION' in out and any('VIOLATION' in l and 'no-failing' not in l for l in out.split('\n')):
                how.append('input')
            if '  refuted: ' in out or 'no-failing-input-found' in out:
                how.append('obligation')
            if '  undecided: ' in out:
                how.append('undecided')
            f = HERE + '/tools/caught.json'
            got = json.load(open(f)) if os.path.exists(f) else {}
            got[b['id']] = ', '.join(how) if c.returncode == 1 else 'MISSED'
            json.dump(got, open(f, 'w'), indent=0, sort_keys=True)
            lines = [l for l in out.split('\n') if 'VIOLATION' in l or l.startswith('  ')]
            txt += '  CHECK exit=%d %s' % (c.returncode, '\n      '.join(l[:230] for l in lines[:7]))
    finally:
        clean()
    r2 = sh('bash', d + '/demo.sh', cwd='/repo')
    ok = with_bug != 0 and r2.returncode == 0
    return '%s %s demo with=%d without=%d%s%s' % (b['id'], 'ok ' if ok else 'BAD', with_bug, r2.returncode,
                                                  '' if ok else '\n' + r.stdout.decode()[-600:] + '\n--\n' + r2.stdout.decode()[-900:], txt)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for b in BUGS:
        if '--all' in sys.argv or any(b['id'].startswith(a) for a in args):
            print(make(b, '--notest' not in sys.argv, '--nocheck' not in sys.argv), flush=True)
