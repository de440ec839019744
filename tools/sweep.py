#!/usr/bin/env python3
"""sweep.py [id...]: run every planted bug's check in copies of /repo and /verif (three at a time)
and record in tools/caught.json what each check reports."""
import json, os, shutil, subprocess, sys, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = HERE + '/tools/caught.json'
lock = threading.Lock()


def one(w, bug):
    base = '/tmp/sweep-%d' % w
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(['cp', '-a', '/repo', base + '/repo'], check=True)
    subprocess.run('git -C %s archive HEAD | tar -x -C %s' % (HERE, base), shell=True, check=True, cwd=base)
    subprocess.run(['git', '-C', base + '/repo', 'apply', '%s/seeded/%s/patch.diff' % (HERE, bug)], check=True)
    p = json.load(open('%s/seeded/%s/meta.json' % (HERE, bug)))['property']
    e = dict(os.environ, PYVC_REPO=base + '/repo', VERIF_REPO=base + '/repo')
    c = subprocess.run(['python3-vt', 'check.py', p], cwd=base, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = c.stdout.decode()
    how = []
    if any('VIOLATION' in l and 'no-failing' not in l for l in out.split('\n')):
        how.append('input')
    if '  refuted: ' in out or 'no-failing-input-found' in out:
        how.append('obligation')
    if '  undecided: ' in out:
        how.append('undecided')
    v = ', '.join(how) if c.returncode == 1 else 'MISSED'
    with lock:
        got = json.load(open(OUT)) if os.path.exists(OUT) else {}
        got[bug] = v
        json.dump(got, open(OUT, 'w'), indent=0, sort_keys=True)
    print(bug, c.returncode, v, flush=True)
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    q = queue.Queue()
    for b in sys.argv[1:] or sorted(os.listdir(HERE + '/seeded')):
        q.put(b)

    def work(w):
        while True:
            try:
                b = q.get_nowait()
            except queue.Empty:
                return
            try:
                one(w, b)
            except Exception as e:
                print(b, 'ERROR', e, flush=True)
    for w in range(3):
        threading.Thread(target=work, args=(w,)).start()
