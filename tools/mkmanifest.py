"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
p = os.path.join(here, 'tools', 'not_applicable.json')
if os.path.exists(p): NA = json.load(open(p))
checks = []; na = []
for i in ids:
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(os.path.join(here, 'checks', i + '.py')):
        na.append(dict(property=i, reason='no check built yet')); continue
    checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='symbolic execution of the real Python code (path exploration) with obligations discharged by Z3',
        level='model_checking',
        level_note='Bounded: holds for all values of the symbolic inputs on every explored path within the bounds in the evidence file; '
                   'floats are read as exact reals; trusts Z3, the polynomial normal form and the numpy/scipy stand-ins, which are cross-checked '
                   'on every run by replaying solver models on the unpatched code. Counterexamples are replayed on the unpatched code before being reported.'))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the checks run the working tree of /repo/src in-process with numpy/scipy names rebound. See DESIGN.md.'),
    open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
