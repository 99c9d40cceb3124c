"""python -m dst.replay FILE: re-executes a replay file exactly."""
import json
import os
import sys

from . import env
from . import core
from . import runner


def main():
    with open(sys.argv[1]) as f:
        doc = json.load(f)
    prop = runner.load(doc['property'])
    r = core.run_plan(prop, doc['plan'], record=True)
    if '-v' in sys.argv:
        for l in r['trail']:
            print('  ', l)
    if r['harness_error']:
        print(r['harness_error'])
        return 2
    print('digest', r['digest'])
    if r['violation']:
        print('%s: %s' % (r['violation']['kind'], r['violation']['msg']))
        print('VIOLATION property=%s replay=%s' % (doc['property'], os.path.abspath(sys.argv[1])))
        return 1
    print('no violation')
    return 0


if __name__ == '__main__':
    sys.exit(main())
