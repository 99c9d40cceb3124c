"""Reverts each fix: commit of /repo in a scratch copy and tells whether the check it is recorded under reports it.

usage: revert_fixes.py [HASH ...]
"""
import concurrent.futures as cf
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

def one(entry):
    prop, h = entry.split()[1].split('=')[1], entry.split()[2]
    d, copy = plant.make_copy('rv' + h)
    try:
        r = plant.sh(['git', 'revert', '-n', h], cwd=copy)
        if r.returncode:
            return entry, 'CONFLICT', r.stderr[-300:]
        rc, v, tail = plant.run_check(copy, prop)
        return entry, 'CAUGHT' if rc == 1 else 'MISSED', rc
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    es = [e for e in json.load(open(os.path.join(plant.ROOT, 'known_findings.json')))['fixed'] if len(sys.argv) < 2 or e.split()[2] in sys.argv[1:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for f in cf.as_completed([ex.submit(one, e) for e in es]):
            e, s, x = f.result()
            print(s, e, x, flush=True)
