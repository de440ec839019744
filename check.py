#!/usr/bin/env python3-vt
"""check.py Cnn [--tier quick|thorough]

Generates the verification conditions of one property from /repo's current source,
discharges them, runs the bounded contract checks of the same property on the real
code under PyPy next to it, and decides (see DESIGN.md, "Verdict")."""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYPY = '/opt/pypyvenv/bin/python'


def pypy_env():
    e = dict(os.environ)
    e.update(PYTHONPATH=os.environ.get('VERIF_REPO', '/repo'), PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    return e


def bounded_start(prop, seed, tier, budget, factor, tag='', only=None, start=0):
    path = os.path.join(HERE, 'bounded', prop + '.py')
    if not os.path.exists(path):
        return None
    out = os.path.join(HERE, 'replays', 'bounded-%s%s-%d.json' % (prop, tag, os.getpid()))
    cmd = [PYPY, path, '--seed', str(seed), '--budget', str(budget), '--factor', str(factor), '--out', out,
           '--from', str(start)]
    if only:
        cmd += ['--only', only]
    p = subprocess.Popen(cmd, env=pypy_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/tmp')
    return p, out, budget


def bounded_collect(h):
    if h is None:
        return {'checks': {}, 'failures': [], 'errors': [], 'absent': True}
    p, out, budget = h
    try:
        txt = p.communicate(timeout=budget + 150)[0].decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        p.kill()
        txt = 'time limit'
        p.wait()
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = {'checks': {}, 'failures': [], 'errors': [{'check': '*', 'iteration': 0, 'message': txt[-2500:]}]}
    try:
        os.remove(out)
    except OSError:
        pass
    return r


def known(prop):
    try:
        return [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
                if k['property'] == prop]
    except (OSError, ValueError):
        return []


def write_replay(prop, n, rec):
    path = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def eligible(ob):
    """a refutation that may be reported although no failing input was found: a value
    clause with a real counter-model (no loop abstraction, no uninterpreted function)"""
    if ob['kind'] != 'post':
        return False
    for r in ob['refuted']:
        if r.get('exact'):
            return True
    return False


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    budget, factor = (45, 1) if tier == 'quick' else (240, 15)
    h = bounded_start(prop, seed, tier, budget, factor)
    from pyvc import driver
    results = []
    try:
        importlib.import_module('specs.' + prop)
        spec_error = None
    except ModuleNotFoundError as e:
        spec_error = None if e.name == 'specs.' + prop else str(e)
    tasks = driver.TASKS.get(prop, [])
    if tier == 'quick':
        tasks = [t for t in tasks if not t.kw.get('thorough')]
    jobs = int(os.environ.get('VERIF_JOBS', '7'))
    results = driver.run_all(tasks, tier, jobs=jobs, budget=150 if tier == 'quick' else 800)
    b = bounded_collect(h)
    # ---------------------------------------------------------------- verdict
    refuted, undecided = [], []
    for r in results:
        why = []
        if r['unsupported']:
            why.append('outside the subset or limits: ' + r['unsupported'][0][:300])
        if not r['obligations']:
            why.append('no obligation was generated')
        for c, v in r['covers'].items():
            if not v:
                why.append('not reachable: ' + c)
        for o in r['obligations']:
            if o['status'] == 'refuted':
                refuted.append((r, o))
            elif o['status'] != 'proved':
                why.append('%s: %s' % (o['name'], o['status']))
        if why:
            undecided.append((r, why))
    failures = list(b['failures'])
    deep_run = None
    if (refuted or undecided or b['errors']) and not failures:
        # look harder for a failing input on the real code
        hs = [bounded_start(prop, seed + 1000 * i, tier, 60, 12, tag='-deep%d' % i) for i in range(1, 4)]
        for x in hs:
            d = bounded_collect(x)
            failures += d['failures']
            deep_run = d
            for n, c in d['checks'].items():
                if n in b['checks']:
                    b['checks'][n]['cases'] += c['cases']
    lines = []
    kn = known(prop)
    viol = 0
    seen_known = set()
    for k in kn:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    n = 0
    fresh = []
    for f in failures:
        if any(k['check'] == f['check'] and k['sig'] == f['sig'] for k in kn):
            continue
        if any(g['check'] == f['check'] and g['sig'] == f['sig'] for g in fresh):
            continue
        fresh.append(f)
    for f in fresh[:5]:
        rec = dict(property=prop, how='failing input on the real code', harness='bounded/%s.py' % prop, **f)
        rec['failed_obligations'] = [dict(task=r['task'], obligation=o['name'], counter=o['refuted'][:1])
                                     for r, o in refuted]
        rec['undecided_obligations'] = [dict(task=r['task'], why=w) for r, w in undecided]
        rec['replay_cmd'] = ('%s %s --seed %d --only %r --iteration %d   (PYTHONPATH=/repo PYTHONHASHSEED=0)'
                             % (PYPY, os.path.join(HERE, 'bounded', prop + '.py'), f['seed'], f['check'], f['iteration']))
        n += 1
        path = write_replay(prop, n, rec)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        lines.append('  check %r case %d: %s' % (f['check'], f['iteration'], f['message'].split('\n')[0][:300]))
        viol += 1
    if not fresh:
        for r, o in refuted:
            ko = any(k.get('task') == r['task'] and k.get('obligation') == o['name'] for k in kn)
            if ko:
                continue
            if eligible(o):
                n += 1
                path = write_replay(prop, n, dict(property=prop, how='obligation refuted by the verifier', task=r['task'],
                                                  obligation=o['name'], verifier_output=o['refuted'],
                                                  functions=r['functions']))
                lines.append('  failed obligation %s / %s' % (r['task'], o['name']))
                lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
                viol += 1
    # ---------------------------------------------------------------- evidence
    obs = [o for r in results for o in r['obligations']]
    total = sum(o['vcs'] for o in obs)
    disch = sum(o['discharged'] for o in obs)
    backends = {}
    for o in obs:
        for kx, v in o['backends'].items():
            backends[kx] = backends.get(kx, 0) + v
    meta = {}
    spec = sys.modules.get('specs.' + prop)
    all_proved = bool(results) and not refuted and not undecided
    level = getattr(spec, 'LEVEL', 'proof') if spec else 'exploration'
    assumptions = sorted(set(sum([list(r['assumptions']) for r in results], [])) |
                         set(getattr(spec, 'ASSUMPTIONS', [])) | set(GENERAL_ASSUMPTIONS))
    cov = {
        'obligations': total, 'discharged': disch,
        'named_clauses': len(obs), 'clauses_proved': sum(o['status'] == 'proved' for o in obs),
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED,
        'functions_under_contract': sorted(set(sum([r['functions'] for r in results], []))),
        'discharged_by_backend': backends,
        'solver_seconds': round(sum(r['solver'] for r in results), 2),
        'solver_queries': sum(r['queries'] for r in results),
        'paths': sum(r['paths'] for r in results), 'live_paths': sum(r['live_paths'] for r in results),
        'tasks': [dict(task=r['task'], wall=r['wall'], clauses=len(r['obligations']),
                       vcs=sum(o['vcs'] for o in r['obligations']), proved=driver.proved(r) and True or False)
                  for r in results],
        'all_obligations_discharged': all_proved,
        'refuted': [dict(task=r['task'], obligation=o['name']) for r, o in refuted],
        'undecided': [dict(task=r['task'], why=w) for r, w in undecided],
        'spec_error': spec_error,
        'bounded_checks_not_counted_as_proved': {
            'what': 'random contract checks of the same clauses (and of functions outside the verifier\'s reach) on the '
                    'real code under PyPy; stated bound: the number of cases below',
            'cases': {k: v['cases'] for k, v in b['checks'].items()},
            'harness_errors': [dict(check=e['check'], message=e['message'][-400:]) for e in b['errors'][:5]],
        },
        'bounded_only': getattr(spec, 'BOUNDED_ONLY', []),
        'evaluations': sum(v['cases'] for v in b['checks'].values()),
        'distinct_nontrivial': sum(v['cases'] - v.get('skipped', 0) for v in b['checks'].values()),
        'rule': 'a case is drawn from (check, seed, iteration); it is non-trivial when the contract\'s precondition held '
                '(cases that were skipped are not counted)',
        'samples': [dict(task=r['task'], clauses=[o['name'] for o in r['obligations']][:12]) for r in results][:6]
                   or [dict(check=k, cases=v['cases']) for k, v in b['checks'].items()][:6],
        'explanation': getattr(spec, '__doc__', None) or '',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print('%s: %d clauses, %d/%d obligations discharged, %d bounded cases, %d undecided tasks, %.1f s'
          % (prop, len(obs), disch, total, cov['evaluations'], len(undecided), time.time() - t0))
    for r, w in undecided:
        print('  undecided: %s: %s' % (r['task'], '; '.join(w)[:500]))
    for r, o in refuted:
        print('  refuted: %s / %s %s' % (r['task'], o['name'], '(reported)' if viol else '(not confirmed on the real code)'))
    for e in b['errors'][:3]:
        print('  harness error: %s: %s' % (e['check'], e['message'][-300:].replace('\n', ' | ')))
    sys.stdout.flush()
    return 1 if viol else 0


TRUSTED = [
    'PyVC itself: the mechanical AST transformation, the symbolic values and the loop rules in /verif/pyvc',
    'the shadow numpy/scipy/random/math/itertools in /verif/pyvc/loader.py (assumed contracts of the libraries)',
    'CPython 3.12 executing the transformed text instead of PyPy 3.9',
    'z3 4.x and cvc5 1.1',
]
GENERAL_ASSUMPTIONS = [
    'floating point numbers are treated as mathematical reals; overflow, rounding, nan and inf are outside the proofs',
    'exp, tanh, sqrt, log are uninterpreted with the axioms listed in pyvc/reals.py',
    'user supplied subclasses obey the contracts of the classes they extend',
]

if __name__ == '__main__':
    sys.exit(main())
