"""Runs a property: many seeds, each in its own forked process, in parallel."""
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

from . import env
from . import core

RUN_TIMEOUT = 240.0
# Processor time after which a run inside library code counts as hung (usual
# runs take under a second, the longest about 30 s).
HANG_CPU = 150.0
_plan = [None]


def load(pid):
    prop = importlib.import_module('dst.props.' + pid.lower()).PROP
    core.lib_codes(refresh=True)
    return prop


def hang(w):
    """Reports where a run spends its time when it does not end."""
    where = []
    for f in sys._current_frames().values():
        while f is not None:
            if core.is_lib_file(f.f_code.co_filename):
                where.append('%s (%s:%d)' % (f.f_code.co_name, os.path.basename(f.f_code.co_filename), f.f_lineno))
            f = f.f_back
    if where:
        msg = 'a library call does not end: %s' % ' < '.join(where[:6])
        os.write(w, json.dumps({'violation': {'kind': 'hang', 'msg': msg},
                                'harness_error': None, 'plan': _plan[0]}).encode())
        os._exit(0)


def in_child(fn, timeout=RUN_TIMEOUT):
    """Runs fn() in a forked child and returns its JSON-able result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                signal.signal(signal.SIGPROF, lambda s, f: hang(w))
                signal.setitimer(signal.ITIMER_PROF, HANG_CPU)
                res = fn()
                signal.setitimer(signal.ITIMER_PROF, 0)
            except BaseException:
                res = {'harness_error': traceback.format_exc()}
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = time.monotonic() + timeout
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            hung = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if hung:
        return {'harness_error': 'run exceeded %gs of wall clock' % timeout}
    try:
        return json.loads(b''.join(buf).decode())
    except ValueError:
        return {'harness_error': 'run process died without a result'}


def one(prop, seed, index, record=False):
    def go():
        t0 = time.monotonic()
        # Planning executes the library for calibration: keep that out of the
        # process that performs the run, so that a replay sees the same state.
        plan = in_child(lambda: core.build_plan(prop, seed, index))
        if 'clients' not in plan:
            return plan
        t1 = time.monotonic()
        _plan[0] = plan
        r = core.run_plan(prop, plan, record=record)
        r['t'] = [round(t1 - t0, 4), round(time.monotonic() - t1, 4)]
        r['index'] = index
        if r['violation'] or r['harness_error'] or record:
            r['plan'] = plan
        r['nclients'] = len(plan['clients'])
        r['nactions'] = len(plan['actions'])
        return r
    r = in_child(go)
    r.setdefault('index', index)
    return r


def campaign(prop, seed, n, workers, budget_s, record_first=2, stop_on_violation=True):
    """Runs indices 0..n-1 and returns their results sorted by index."""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    bad = ctx.Value('i', n)
    q = ctx.SimpleQueue()
    t_end = time.monotonic() + budget_s

    def worker(wi):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        for i in range(wi, n, workers):
            if i > bad.value and stop_on_violation:
                break
            if time.monotonic() > t_end:
                q.put(json.dumps({'budget': True, 'index': i}))
                break
            r = one(prop, seed, i, record=i < record_first)
            q.put(json.dumps(r))
            if r.get('violation') or r.get('harness_error'):
                with bad.get_lock():
                    if i < bad.value:
                        bad.value = i
        q.put(json.dumps({'end': wi}))

    ps = [ctx.Process(target=worker, args=(w,)) for w in range(workers)]
    for p in ps:
        p.start()
    res, ended, cut = [], 0, 0
    while ended < workers:
        m = json.loads(q.get())
        if 'end' in m:
            ended += 1
        elif m.get('budget'):
            cut += 1
        else:
            res.append(m)
    for p in ps:
        p.join()
    res.sort(key=lambda r: r['index'])
    return res, cut


def same(v, kind):
    return v is not None and v['kind'] == kind


def minimise(prop, plan, kind, max_exec=160, max_s=90.0):
    """Greedy removal of actions, clients, operations; prop-specific shrinks."""
    t0 = time.monotonic()
    n = [0]

    def bad(p):
        if n[0] >= max_exec or time.monotonic() - t0 > max_s:
            return False
        n[0] += 1
        r = in_child(lambda: core.run_plan(prop, p), 60.0)
        return same(r.get('violation'), kind)

    def copy(p):
        return json.loads(json.dumps(p))

    changed = True
    while changed and n[0] < max_exec:
        changed = False
        p = copy(plan)
        if p['actions'] and len(p['actions']) > 1:
            p['actions'] = []
            if bad(p):
                plan, changed = p, True
        i = 0
        while i < len(plan['actions']):
            p = copy(plan)
            del p['actions'][i]
            if bad(p):
                plan, changed = p, True
            else:
                i += 1
        for ci in range(len(plan['clients'])):
            if plan['clients'][ci]:
                p = copy(plan)
                p['clients'][ci] = []
                if bad(p):
                    plan, changed = p, True
        for ci in range(len(plan['clients'])):
            oi = 0
            while oi < len(plan['clients'][ci]):
                p = copy(plan)
                del p['clients'][ci][oi]
                if sum(map(len, p['clients'])) and bad(p):
                    plan, changed = p, True
                else:
                    oi += 1
        for cand in getattr(prop, 'shrink', lambda p: [])(copy(plan)):
            if bad(cand):
                plan, changed = cand, True
                break
    return plan, n[0]
