"""python -m dst.check ID [quick|thorough]: decides one property.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the machinery failed.
"""
import json
import os
import subprocess
import sys
import time

from . import env
from . import core
from . import runner


def known_findings(pid):
    path = os.path.join(env.VERIF, 'known_findings.json')
    with open(path) as f:
        doc = json.load(f)
    return [k for k in doc['findings'] if k['property'] == pid]


def main():
    pid = sys.argv[1].upper()
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    print('property=%s tier=%s VERIF_SEED=%d repo=%s' % (pid, tier, seed, env.REPO), flush=True)
    try:
        prop = runner.load(pid)
    except Exception as e:
        import traceback
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        if any(core.is_lib_file(f.filename) for f in tb):
            # The library cannot even be imported.
            path = write_replay(pid, seed, -1, {'prop': pid, 'clients': [], 'actions': []},
                                {'kind': 'import', 'msg': str(e)}, None)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        return 2
    n = prop.runs[tier]
    workers = int(os.environ.get('DST_WORKERS', '0')) or min(16, os.cpu_count() or 4)
    budget = 600.0 if tier == 'quick' else 3 * 3600.0
    if 'DST_RUNS' in os.environ:
        n = int(os.environ['DST_RUNS'])
    known = known_findings(pid)
    res, cut = runner.campaign(prop, seed, n, workers, budget)
    wall_search = time.monotonic() - t0
    bad = [r for r in res if r.get('violation') and not is_known(r['violation'], known)]
    err = [r for r in res if r.get('harness_error')]
    code = 0
    path = None
    if bad:
        r = bad[0]
        path = report(prop, pid, seed, r)
        code = 1
    elif err:
        print('HARNESS ERROR in run %s:\n%s' % (err[0].get('index'), err[0]['harness_error']))
        code = 2
    elif cut and len(res) < n // 4:
        print('HARNESS ERROR: only %d of %d runs fit into %gs' % (len(res), n, budget))
        code = 2
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    write_evidence(prop, pid, tier, seed, res, n, wall_search, time.monotonic() - t0,
                   workers, len(bad), known)
    print('%s: %d runs, %.1fs, exit %d' % (pid, len(res), time.monotonic() - t0, code), flush=True)
    return code


def is_known(v, known):
    return any(k.get('sig') and k['sig'] == v.get('sig') for k in known)


def write_replay(pid, seed, index, plan, violation, extra):
    d = os.path.join(os.environ.get('DST_OUT', env.VERIF), 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (pid, seed, index))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'index': index, 'violation': violation,
                   'plan': plan, 'note': extra,
                   'replay': 'cd /verif && %s -m dst.replay %s' % (env.PYTHON, path)},
                  f, indent=1)
        f.write('\n')
    return path


def report(prop, pid, seed, r):
    v = r['violation']
    print('run %d (seed %d): %s: %s' % (r['index'], seed, v['kind'], v['msg']), flush=True)
    plan = r.get('plan') or {'prop': pid, 'clients': [], 'actions': []}
    nexec = 0
    small = plan
    try:
        if v['kind'] == 'hang':
            raise RuntimeError('the run does not end')
        if os.environ.get('DST_NOMIN'):
            raise RuntimeError('not asked to')
        small, nexec = runner.minimise(prop, plan, v['kind'])
    except Exception as e:
        print('not minimised: %s' % e)
    path = write_replay(pid, seed, r['index'], small, v,
                        'minimised with %d executions' % nexec)
    ok = v['kind'] != 'hang' and verify_replay(path)
    if not ok and small is not plan:
        path = write_replay(pid, seed, r['index'], plan, v, 'not minimised')
        ok = v['kind'] != 'hang' and verify_replay(path)
    nops = sum(map(len, small['clients']))
    print('minimised: %d ops, %d actions (%d executions); replay in a fresh process %s'
          % (nops, len(small['actions']), nexec, 'reproduces it' if ok else 'DOES NOT reproduce it'))
    for c, ops in enumerate(small['clients']):
        for op in ops:
            print('  client %d: %s' % (c, json.dumps(op)[:300]))
    for a in small['actions']:
        print('  action: %s' % json.dumps(a))
    print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
    return path


def verify_replay(path):
    e = dict(os.environ)
    e['PYTHONPATH'] = env.VERIF
    try:
        p = subprocess.run([env.PYTHON, '-m', 'dst.replay', path], cwd=env.VERIF, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1


def write_evidence(prop, pid, tier, seed, res, planned, wall_search, wall, workers, nbad, known):
    good = [r for r in res if 'sig' in r]
    fired, probes = {}, {}
    for r in good:
        for k, v in r['fired'].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
    nontriv = set()
    sigs = set()
    for r in good:
        sigs.add(r['sig'])
        if prop.nontrivial(r):
            nontriv.add((r['sig'], json.dumps(r['fired'], sort_keys=True), r['digest']))
    samples = []
    for r in good[:2]:
        if 'plan' in r:
            samples.append({'index': r['index'], 'plan': compact(r['plan']),
                            'trail': r.get('trail', [])[:40], 'digest': r['digest']})
    cov = {
        'evaluations': len(good),
        'distinct_nontrivial': len(nontriv),
        'rule': prop.rule,
        'samples': samples or [{'note': 'no run completed'}],
        'runs_planned': planned,
        'seeds_per_hour': round(len(good) / max(wall_search, 1e-9) * 3600),
        'workers': workers,
        'operations': sum(r['ops'] for r in good),
        'library_events_logical_time': sum(r['events'] for r in good),
        'simulated_time_note': 'the library has no clock; logical time is counted in traced '
                               'library events (source lines or bytecodes)',
        'context_switches': sum(r['switches'] for r in good),
        'preemptions_inside_calls': sum(r['preempts'] for r in good),
        'faults_fired': fired,
        'faults_fired_total': sum(fired.values()),
        'distinct_switch_signatures': len(sigs),
        'invariant_checks': sum(r['inv'] for r in good),
        'runs_with_faults': sum(1 for r in good if r['fired']),
        'runs_serial_fault_free': sum(1 for r in good if not r['fired'] and not r['preempts']),
        'probes': probes,
        'real_components': prop.real,
        'stubbed_components': prop.stubs,
        'known_findings_listed': len(known),
    }
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
           'coverage': cov, 'assumptions': prop.assumptions,
           'wall_s': round(wall, 2), 'violations': nbad}
    d = os.path.join(os.environ.get('DST_OUT', env.VERIF), 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(d, pid + '.json'))


def compact(plan):
    s = json.dumps(plan)
    return json.loads(s) if len(s) < 6000 else s[:6000] + '...'


if __name__ == '__main__':
    sys.exit(main())
