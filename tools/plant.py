"""Builds /verif/seeded/<id>/ from bug definitions and tries the checks on them.

usage: plant.py DEFS.py [ID ...]       DEFS.py defines BUGS = [dict(id=, prop=, edits=[(file, old, new)], needs=, what=, demo=)]
       plant.py --check [ID ...]       re-runs the checks on the bugs already in /verif/seeded

Every bug is tried in a scratch copy of /repo (DST_REPO), never in /repo itself.
"""
import concurrent.futures as cf
import json, os, runpy, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
STABLE = json.load(open('/opt/vp/BASELINE.json'))

PRELUDE = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
import numpy as np
warnings.simplefilter('ignore')

def at_line(fn, n, action):
    """Runs fn(); performs action() just before the n-th line executed inside the library. True if reached."""
    state = {'n': 0, 'hit': False}
    def local(frame, event, arg):
        if event == 'line':
            state['n'] += 1
            if state['n'] == n:
                state['hit'] = True
                sys.settrace(None)
                action()
        return local
    def tracer(frame, event, arg):
        return local if os.sep + 'doatools' + os.sep in frame.f_code.co_filename else None
    sys.settrace(tracer)
    try:
        fn()
    finally:
        sys.settrace(None)
    return state['hit']

def interrupt(fn, n):
    """Runs fn() and interrupts it at the n-th line executed inside the library. True if interrupted."""
    def bang():
        raise KeyboardInterrupt
    try:
        return at_line(fn, n, bang)
    except KeyboardInterrupt:
        return True

def check(cond, msg):
    if not cond:
        print('FAIL:', msg)
        sys.exit(1)

'''

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)

def make_copy(tag):
    d = tempfile.mkdtemp(prefix='pl_%s_' % tag, dir='/tmp')
    c = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', c], check=True)
    return d, c

def stable_tests(copy):
    out = os.path.join(os.path.dirname(copy), 'r.xml')
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'doatools/tests', '--junitxml', out], cwd=copy, env={'PYTHONPATH': copy, 'MPLBACKEND': 'Agg'})
    return r.returncode == 0, r.stdout[-400:]

def run_check(copy, prop, extra=None):
    env = {'DST_REPO': copy, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'DST_WORKERS': '4'}
    env.update(extra or {})
    env['DST_OUT'] = os.path.dirname(copy)
    r = sh(['bash', 'run.sh', prop, 'quick'], cwd=ROOT, env=env, timeout=1800)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, v, r.stdout[-600:] + r.stderr[-600:]

def original_lines_changed(copy):
    """True if the patch removes at least one line of the original repository, or only adds."""
    d = sh(['git', 'diff', '-U0'], cwd=copy).stdout
    cur, ok, n = None, False, 0
    import re
    for l in d.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            a, c = int(m.group(1)), int(m.group(2) or 1)
            for i in range(a, a + c):
                n += 1
                b = sh(['git', 'blame', '-l', '-s', '-L', '%d,%d' % (i, i), 'HEAD', '--', cur], cwd=copy).stdout
                if b.split()[0].lstrip('^')[:30] == BASE[:30]:
                    ok = True
    return ok, n

def build(bug):
    bid, prop = bug['id'], bug['prop']
    d, copy = make_copy(bid)
    rep = {'id': bid, 'prop': prop}
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(copy, 'doatools', f)
            s = open(p).read()
            if s.count(old) != 1:
                rep['error'] = 'edit matches %d times in %s: %r' % (s.count(old), f, old[:60])
                return rep
            open(p, 'w').write(s.replace(old, new))
        patch = sh(['git', 'diff'], cwd=copy).stdout
        ok, n = original_lines_changed(copy)
        if n and not ok:
            rep['error'] = 'changes no original line'
            return rep
        out = os.path.join(d, bid)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(patch)
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\n# run with the repository as the current directory\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n')
        open(os.path.join(out, 'demo.py'), 'w').write(PRELUDE + bug['demo'].strip() + '\nprint("ok")\n')
        json.dump({'property': prop, 'needs': bug['needs'], 'what_it_breaks': bug['what']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        t, msg = stable_tests(copy)
        if not t:
            rep['error'] = 'tests fail: ' + msg
            return rep
        c = sh(['bash', os.path.join(out, 'demo.sh')], cwd='/repo', timeout=300)
        p = sh(['bash', os.path.join(out, 'demo.sh')], cwd=copy, timeout=300)
        if c.returncode != 0 or p.returncode == 0:
            rep['error'] = 'demo clean=%d patched=%d\n%s\n--\n%s' % (c.returncode, p.returncode, c.stdout + c.stderr[-800:], p.stdout + p.stderr[-300:])
            return rep
        rep['demo'] = (p.stdout + p.stderr)[-150:].strip()
        dst = os.path.join(SEEDED, bid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        rc, v, tail = run_check(copy, prop)
        rep['rc'], rep['caught'] = rc, rc == 1 and any('property=%s ' % prop in x for x in v)
        if rc not in (0, 1):
            rep['tail'] = tail
    except Exception as e:
        rep['error'] = repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rep

def recheck(bid, props=None):
    d, copy = make_copy(bid)
    try:
        r = sh(['git', 'apply', os.path.join(SEEDED, bid, 'patch.diff')], cwd=copy)
        if r.returncode:
            return {'id': bid, 'error': r.stderr}
        prop = json.load(open(os.path.join(SEEDED, bid, 'meta.json')))['property']
        res = {}
        for p in props or [prop]:
            rc, v, tail = run_check(copy, p)
            res[p] = rc
        return {'id': bid, 'prop': prop, 'res': res, 'caught': res.get(prop) == 1}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    a = sys.argv[1:]
    os.makedirs(SEEDED, exist_ok=True)
    if a[0] == '--check':
        ids = a[1:] or sorted(os.listdir(SEEDED))
        jobs = [(recheck, i) for i in ids]
    else:
        bugs = runpy.run_path(a[0])['BUGS']
        jobs = [(build, b) for b in bugs if len(a) < 2 or b['id'] in a[1:]]
    n = bad = 0
    with cf.ThreadPoolExecutor(3) as ex:
        for f in cf.as_completed([ex.submit(fn, x) for fn, x in jobs]):
            r = f.result()
            n += 1
            if r.get('error'):
                bad += 1
                print('ERROR ', r['id'], r['error'], flush=True)
            else:
                print('CAUGHT' if r.get('caught') else 'MISSED', r['id'], r['prop'], r.get('rc', r.get('res')), r.get('tail', ''), '|', r.get('demo', ''), flush=True)
    print(n, 'bugs,', bad, 'errors')

if __name__ == '__main__':
    main()
