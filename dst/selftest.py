"""python -m dst.selftest [IDS] [N]: determinism of the simulator.

Runs N seeds of each property several times: other worker processes, another
PYTHONHASHSEED in a fresh interpreter, and diffs the event-log digests.
"""
import json
import os
import subprocess
import sys

from . import env
from . import runner


def digests(pid, n, workers, seed):
    prop = runner.load(pid)
    res, cut = runner.campaign(prop, seed, n, workers, 3600, stop_on_violation=False)
    return {r['index']: (r.get('digest'), r.get('harness_error'), (r.get('violation') or {}).get('kind'))
            for r in res}


def main():
    if sys.argv[1] == '--emit':
        pid, n, w, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
        print('JSON' + json.dumps(sorted((k,) + tuple(v) for k, v in digests(pid, n, w, seed).items())))
        return 0
    ids = sys.argv[1].split(',')
    n = int(sys.argv[2])
    bad = 0
    for pid in ids:
        outs = []
        for w, hs, seed in ((8, '0', 7), (3, '12345', 7), (5, 'random', 7)):
            e = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=env.VERIF)
            p = subprocess.run([env.PYTHON, '-m', 'dst.selftest', '--emit', pid, str(n), str(w), str(seed)],
                               cwd=env.VERIF, env=e, stdout=subprocess.PIPE)
            l = [x for x in p.stdout.decode().splitlines() if x.startswith('JSON')]
            outs.append(json.loads(l[0][4:]) if l else None)
        same = all(o == outs[0] and o is not None for o in outs)
        viol = [x for x in (outs[0] or []) if x[2] or x[3]]
        print('%s: %d runs x 3 interpreters: %s; %d violations or errors' % (
            pid, n, 'identical' if same else 'DIFFERENT', len(viol)), flush=True)
        if not same:
            bad = 1
            for o in outs[1:]:
                d = [a for a, b in zip(outs[0], o) if a != b][:5]
                print('   ', d)
    return bad


if __name__ == '__main__':
    sys.exit(main())
