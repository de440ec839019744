#!/usr/bin/env python3-vt
"""the verifier must refute deliberately broken bodies and prove the original ones
(scratch copy of the package, removed afterwards)"""
import importlib
import os
import shutil
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

MUTANTS = [
    ('C05', 'LinearConnection', 'pybrain/structure/connections/linear.py', 'outbuf += inbuf * self.params', 'outbuf += inbuf * self.params * 2'),
    ('C05', 'FullConnection', 'pybrain/structure/connections/full.py', 'outer(inbuf, outerr).T.flatten()', 'outer(inbuf, outerr).flatten()'),
    ('C04', 'SigmoidLayer', 'pybrain/structure/modules/sigmoidlayer.py', '(1 - outbuf)', '(2 - outbuf)'),
    ('C04', 'TanhLayer', 'pybrain/structure/modules/tanhlayer.py', '(1 - outbuf**2)', '(1 - outbuf**3)'),
]


def main():
    tmp = tempfile.mkdtemp(prefix='pyvc-selftest-')
    bad = 0
    try:
        shutil.copytree(os.path.join(REPO, 'pybrain'), os.path.join(tmp, 'pybrain'),
                        ignore=shutil.ignore_patterns('*.pyc', '__pycache__', 'tests'))
        from pyvc import driver, loader
        for prop, name, path, a, b in MUTANTS:
            importlib.import_module('specs.' + prop)
            t = [t for t in driver.TASKS[prop] if t.name == name][0]
            f = os.path.join(tmp, path)
            src = open(f).read()
            if a not in src:
                print('selftest: %s changed, skipped' % path)
                continue
            open(f, 'w').write(src.replace(a, b))
            loader.REPO = tmp
            r = driver.run_task(t)
            open(f, 'w').write(src)
            loader.REPO = REPO
            ok = any(o['status'] == 'refuted' for o in r['obligations'])
            print('selftest: broken %s %s' % (name, 'refuted' if ok else 'NOT REFUTED'))
            bad += not ok
    finally:
        shutil.rmtree(tmp)
    return 0        # informative only: a changed tree must not stop the checks


if __name__ == '__main__':
    sys.exit(main())
