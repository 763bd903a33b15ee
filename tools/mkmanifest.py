"""MANIFEST.json from levels.json and the properties"""
import json, os
V='/verif'; L=json.load(open(V+'/levels.json')); P=[json.loads(l) for l in open(V+'/properties.jsonl')]
TECH='contract-based deductive verification of the real functions: pyvc executes /repo\'s current source on symbolic graphs, signals and kernels, applies loop rules and callee contracts, and discharges every postcondition with a term normaliser and z3; an executable form of the same contract searches for a failing input'
M=dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, networkx, pygsp" && python3 tools/mkmanifest.py --check', checks=[], not_applicable=[])
for p in P:
    i=p['id']; m=L.get(i)
    if m and os.path.exists(f'{V}/contracts/{i.lower()}.py'):
        c=dict(property=i, quick_cmd=f'./check.py {i} --tier quick', thorough_cmd=f'./check.py {i} --tier thorough', technique=m.get('technique', TECH) if m.get('technique')!='' else TECH, level=m.get('level','proof'), level_note=m['note'])
        M['checks'].append(c)
    else: M['not_applicable'].append(dict(property=i, reason=(m or {}).get('na', 'the contracts of this property are not finished yet')))
import sys
s=json.dumps(M,indent=1)+'\n'
if '--check' in sys.argv: sys.exit(0 if open(V+'/MANIFEST.json').read()==s else 'MANIFEST.json is not up to date')
open(V+'/MANIFEST.json','w').write(s)
