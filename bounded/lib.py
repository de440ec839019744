"""Bounded contract checks of the real code (PyPy, /repo on PYTHONPATH).

A check is a function fn(rng, size) that runs one randomly drawn case against an
independent statement of the contract and calls expect(...).  One case is
determined by (check name, seed, iteration) and can be replayed.

A failure is  (a) an expectation that does not hold, or  (b) an exception raised
inside pybrain's own code, or a case that does not come back.  An exception raised
only in the harness (for instance because an internal name changed) is reported as
a harness error and is never an alarm."""
from __future__ import print_function
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.filterwarnings('ignore')
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
if REPO not in sys.path:
    sys.path.insert(0, REPO)

CHECKS = []
HANG = 45


class Violation(Exception):
    pass


class Hang(Exception):
    pass


class Skip(Exception):
    pass


class HarnessError(Exception):
    pass


def check(name, n=60, ob=(), deep=None):
    """n: number of cases in the quick tier"""
    def deco(fn):
        CHECKS.append((name, fn, n, deep or n * 20))
        return fn
    return deco


def clip_repr(x, n=600):
    try:
        r = repr(x)
    except Exception as e:
        r = '<%s>' % type(x).__name__
    return r if len(r) <= n else r[:n] + '...'


def expect(cond, what, **data):
    try:
        ok = bool(cond)
    except ValueError:
        ok = False
    if not ok:
        raise Violation(what + ''.join('\n   %s = %s' % (k, clip_repr(v)) for k, v in sorted(data.items())))


def close(a, b, tol=1e-7):
    import numpy as np
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a) == np.isfinite(b)).all():
        return False
    f = np.isfinite(b)
    if not (a[~f] == b[~f]).all() and not (np.isnan(a[~f]) == np.isnan(b[~f])).all():
        return False
    return bool((abs(a[f] - b[f]) <= tol * (1 + abs(b[f]))).all())


def same(a, b):
    """exact equality of arrays"""
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(((a == b) | ((a != a) & (b != b))).all())


def expect_close(a, b, what, tol=1e-7, **data):
    expect(close(a, b, tol), what, got=a, expected=b, **data)


def expect_same(a, b, what, **data):
    expect(same(a, b), what, got=a, expected=b, **data)


def expect_raises(exc, fn, what, *a, **k):
    try:
        fn(*a, **k)
    except exc:
        return
    raise Violation(what + ' (nothing raised)')


def inside_repo(tb):
    for f in traceback.extract_tb(tb):
        fn = os.path.realpath(f[0])
        if fn.startswith(REPO + '/pybrain/'):
            return True
    return False


def _alarm(*a):
    raise Hang()


def seed_all(key):
    import numpy
    random.seed(key)
    numpy.random.seed(random.Random(key).randrange(2 ** 31))


def run_one(name, fn, seed, it):
    """-> None or failure dict or ('error', text)"""
    key = '%s/%s/%s' % (name, seed, it)
    rng = random.Random(key)
    seed_all(key)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG)
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        fn(rng, it)
        return None
    except Skip:
        return 'skip'
    except Violation as e:
        return {'check': name, 'seed': seed, 'iteration': it, 'kind': 'contract', 'message': str(e),
                'sig': str(e).split('\n')[0]}
    except Hang:
        return {'check': name, 'seed': seed, 'iteration': it, 'kind': 'hang',
                'message': 'no result after %d seconds' % HANG, 'sig': 'hang'}
    except HarnessError as e:
        return ('error', str(e))
    except Exception as e:
        et, ev, tb = sys.exc_info()
        txt = ''.join(traceback.format_exception(et, ev, tb))[-1800:]
        if inside_repo(tb):
            return {'check': name, 'seed': seed, 'iteration': it, 'kind': 'exception',
                    'message': 'unexpected %s: %s\n%s' % (et.__name__, ev, txt),
                    'sig': 'unexpected %s' % et.__name__}
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError)) and 'argument' not in str(e):
            # what the code returned cannot be used as what it is documented to be
            return {'check': name, 'seed': seed, 'iteration': it, 'kind': 'unusable',
                    'message': 'unusable result, %s: %s\n%s' % (et.__name__, ev, txt),
                    'sig': 'unusable result, %s' % et.__name__}
        return ('error', txt)
    finally:
        signal.alarm(0)
        sys.stdout.close()
        sys.stdout = out


def main(argv=None):
    argv = argv or sys.argv[1:]
    opt = dict(zip(argv[::2], argv[1::2]))
    seed = int(opt.get('--seed', '1'))
    budget = float(opt.get('--budget', '20'))
    factor = float(opt.get('--factor', '1'))
    only = opt.get('--only')
    out = opt.get('--out')
    start = int(opt.get('--from', '0'))
    t0 = time.time()
    rep = {'checks': {}, 'failures': [], 'errors': [], 'seed': seed}
    todo = []
    for name, fn, n, deep in CHECKS:
        if only and only != name:
            continue
        rep['checks'][name] = {'cases': 0, 'skipped': 0, 'planned': int(n * factor)}
        todo.append([name, fn, start, start + max(1, int(n * factor))])
    if '--iteration' in opt:
        it = int(opt['--iteration'])
        todo = [[n, f, it, it + 1] for n, f, _, _ in todo]
    k = 0
    while todo:
        for x in list(todo):
            name, fn, it, end = x
            # a slice of this check
            tslice = time.time()
            while x[2] < end and time.time() - tslice < 0.25:
                r = run_one(name, fn, seed, x[2])
                x[2] += 1
                rep['checks'][name]['cases'] += 1
                if r == 'skip':
                    rep['checks'][name]['skipped'] += 1
                elif isinstance(r, tuple):
                    rep['errors'].append({'check': name, 'iteration': x[2] - 1, 'message': r[1]})
                    rep['checks'][name]['errors'] = rep['checks'][name].get('errors', 0) + 1
                    if rep['checks'][name]['errors'] > 3:
                        x[2] = end
                elif r is not None:
                    old = [f for f in rep['failures'] if f['check'] == name and f['sig'] == r['sig']]
                    if not old:
                        rep['failures'].append(r)
                    rep['checks'][name]['failed'] = rep['checks'][name].get('failed', 0) + 1
                    if rep['checks'][name]['failed'] > 5:
                        x[2] = end
            if x[2] >= end:
                todo.remove(x)
            if time.time() - t0 > budget:
                todo = []
                break
    rep['wall'] = time.time() - t0
    if out:
        with open(out, 'w') as f:
            json.dump(rep, f)
    else:
        for n, c in rep['checks'].items():
            print(n, c)
        for f in rep['failures']:
            print('FAIL', f['check'], f['iteration'], f['message'][:1500])
        for f in rep['errors'][:5]:
            print('HARNESS ERROR', f['check'], f['iteration'], f['message'][-900:])
        print('wall', round(rep['wall'], 2))
    return rep
