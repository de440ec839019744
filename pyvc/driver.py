"""Runs verification tasks (one process each) and collects their obligations."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import z3
from .core import C, Explorer, PathEnd, Unsupported, RealTypeError, T, TB, S, simp
from . import arr as A
from . import sums
from .loader import Loader

TASKS = {}
SUITES = []


class Task(object):
    def __init__(self, prop, name, fn, functions, kw):
        self.prop, self.name, self.fn, self.functions, self.kw = prop, name, fn, functions, kw


def task(prop, name, functions=(), **kw):
    """register a verification task of a property"""
    def deco(fn):
        TASKS.setdefault(prop, []).append(Task(prop, name, fn, list(functions), kw))
        return fn
    return deco


PROGRAM_ERRORS = (IndexError, AssertionError, ValueError, ZeroDivisionError, KeyError, RealTypeError, StopIteration)
INTERNAL_ERRORS = (TypeError, AttributeError, NameError, NotImplementedError, RecursionError, ImportError,
                   MemoryError, SyntaxError, z3.Z3Exception)


class TaskCtx(object):
    """what a specification uses"""

    def __init__(self, loader, params):
        self.L = loader
        self.p = params
        self.functions = set()

    def cls(self, mod, name):
        return self.L.get(mod, name)

    def under(self, *names):
        self.functions.update(names)

    def call(self, label, fn, *a, **k):
        """run real code; exceptions other than the allowed ones are obligations"""
        allowed = k.pop('_raises', ())
        try:
            r = fn(*a, **k)
        except allowed:
            raise
        except (PathEnd, Unsupported):
            raise
        except INTERNAL_ERRORS as e:
            if isinstance(e, RealTypeError):
                self._unexpected(label, e)
            raise Unsupported('%s: %s: %s' % (label, type(e).__name__, e) + tb_where())
        except Exception as e:
            self._unexpected(label, e)
        C.prove('%s: raises nothing' % label, True, kind='exc')
        return r

    def _unexpected(self, label, e):
        C.last_exc = '%s: %s%s' % (type(e).__name__, e, tb_where())
        try:
            C.prove('%s: raises nothing' % label, False, kind='exc')
        finally:
            ob = C.obs.get('%s: raises nothing' % label)
            for d in (ob.refuted + ob.unknown if ob else []):
                if d is not None:
                    d.setdefault('exception', C.last_exc)
        raise PathEnd()

    def raises(self, label, exc, fn, *a, **k):
        """fn must raise exc"""
        try:
            fn(*a, **k)
        except (PathEnd, Unsupported):
            raise
        except exc:
            C.prove('%s: raises %s' % (label, exc.__name__), True)
            return
        except INTERNAL_ERRORS as e:
            raise Unsupported('%s: %s: %s' % (label, type(e).__name__, e) + tb_where())
        except Exception as e:
            self._unexpected(label, e)
        C.prove('%s: raises %s' % (label, exc.__name__), False)

    def prove(self, name, cond, kind='post'):
        return C.prove(name, cond, kind)


def tb_where():
    et, ev, tb = sys.exc_info()
    last = ''
    for f in traceback.extract_tb(tb):
        if '/pybrain/' in f.filename:
            last = ' (%s:%d)' % (f.filename.split('/pybrain/')[-1], f.lineno)
    return last


def run_task(t, tier='quick', deadline=None, quiet=True):
    """explore every path of one task in this process -> result dict"""
    t0 = time.time()
    sums.reset()
    kw = t.kw
    C.reset_all(task=t.name, timeout=kw.get('timeout', 6000 if tier == 'quick' else 20000),
                max_paths=kw.get('max_paths', 600),
                deadline=deadline or (t0 + kw.get('limit', 60 if tier == 'quick' else 300)))
    C.unsupported = []
    try:
        loader = Loader()
    except Exception as e:
        return fail(t, 'loading: %s' % e, t0)
    tc = TaskCtx(loader, kw)
    ex = Explorer()
    C.explorers = [ex]
    paths = 0
    live = 0
    while ex.next():
        paths += 1
        if paths > C.max_paths:
            C.unsupported.append('more than %d paths' % C.max_paths)
            break
        C.start_path()
        loader.restore()
        try:
            t.fn(tc)
            C.cover('end of the task is reachable')
            live += 1
        except PathEnd:
            pass
        except Unsupported as e:
            C.unsupported.append(str(e) + ('' if quiet else '\n' + traceback.format_exc()))
            if deadline and time.time() > deadline or 'time limit' in str(e):
                C.rollback(0)
                break
        except Exception as e:
            C.unsupported.append('%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        finally:
            C.rollback(0)
        if len(C.unsupported) > 5:
            break
    import hashlib
    src = {}
    return {
        'task': t.name, 'prop': t.prop, 'paths': paths, 'live_paths': live,
        'wall': round(time.time() - t0, 3), 'solver': round(C.solver_time, 3), 'queries': C.queries,
        'unsupported': C.unsupported[:4],
        'covers': C.covers, 'functions': sorted(set(t.functions) | tc.functions),
        'obligations': [dict(name=o.name, kind=o.kind, vcs=o.vcs, discharged=o.discharged, status=o.status,
                             backends=o.backends, refuted=o.refuted[:2], unknown=o.unknown[:2])
                        for o in C.obs.values()],
        'assumptions': sorted(C.assumptions),
        'modules': sorted(loader.sources),
    }


def fail(t, why, t0):
    return {'task': t.name, 'prop': t.prop, 'paths': 0, 'live_paths': 0, 'wall': round(time.time() - t0, 3),
            'solver': 0, 'queries': 0, 'unsupported': [why], 'covers': {}, 'functions': t.functions,
            'obligations': [], 'assumptions': [], 'modules': []}


def _worker(t, tier, conn):
    try:
        sys.setrecursionlimit(20000)
        r = run_task(t, tier)
    except BaseException as e:
        r = fail(t, 'verifier error: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-800:]), time.time())
    try:
        conn.send_bytes(json.dumps(r, default=str).encode())
    finally:
        conn.close()


def run_all(tasks, tier='quick', jobs=8, budget=None):
    """all tasks in forked processes; a task that exceeds its limit is unknown"""
    mpc = mp.get_context('fork')
    todo = list(tasks)
    running = []
    results = []
    t_start = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            t = todo.pop(0)
            r, w = mpc.Pipe(False)
            p = mpc.Process(target=_worker, args=(t, tier, w))
            p.start()
            w.close()
            limit = t.kw.get('limit', 60 if tier == 'quick' else 300) + 20
            running.append((t, p, r, time.time(), limit))
        still = []
        for t, p, r, t0, limit in running:
            if r.poll(0):
                try:
                    results.append(json.loads(r.recv_bytes().decode()))
                except EOFError:
                    results.append(fail(t, 'verifier process died', t0))
                p.join()
            elif not p.is_alive():
                if r.poll(0):
                    still.append((t, p, r, t0, limit))
                    continue
                results.append(fail(t, 'verifier process died', t0))
            elif time.time() - t0 > limit or (budget and time.time() - t_start > budget):
                p.kill()
                p.join()
                results.append(fail(t, 'time limit (killed)', t0))
            else:
                still.append((t, p, r, t0, limit))
        running = still
        if running:
            time.sleep(0.01)
    order = {t.name: i for i, t in enumerate(tasks)}
    results.sort(key=lambda r: order.get(r['task'], 0))
    return results


def proved(r):
    return (not r['unsupported'] and r['obligations'] and all(o['status'] == 'proved' for o in r['obligations'])
            and r['covers'].get('end of the task is reachable'))
