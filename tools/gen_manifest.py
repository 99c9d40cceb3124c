"""Writes /verif/MANIFEST.json from the properties that have a module in dst/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
PY = '/opt/venv/bin/python'
NA = {
    'N01': 'Pure function of its input: unit and coordinate conversions keep no state, call nothing '
           'back, draw nothing and have no schedule, clock, fault or history for a simulation to '
           'vary; input generation alone would be a different technique.',
    'N02': 'Pure function of its input: the matrix helpers are stateless single calls with no '
           'schedule, fault or history to simulate.',
    'N03': 'Pure function of its input: spatial smoothing and l1-SVD are stateless single calls; '
           'there is nothing nondeterministic for a simulator to decide (their use inside campaigns '
           'is exercised by C22).',
    'N04': 'Pure function of its input: argument validation of a single call has no schedule, '
           'fault or history (rejections that matter after interleaving are part of C01, C02, C05).',
}
NOTES = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(os.path.join(V, 'dst', 'props', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check under construction'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'bash run.sh %s quick' % i,
        'thorough_cmd': 'bash run.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection',
        'level': 'exploration',
        'level_note': 'Seeded search over interleavings, faults and operation histories of the real '
                      'code against an independent reference model; every run replays exactly from '
                      'its plan. Samples, does not enumerate. Trusts NumPy/SciPy numerics, the '
                      'reference model in dst/ref.py and the atomicity of native calls. See DESIGN.md '
                      'for what ' + i + ' covers.',
    })
doc = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: all seams are reached through public arguments, module-level '
                'bindings of third-party functions and sys.monitoring events.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
