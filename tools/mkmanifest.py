#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs/*.py and properties.jsonl."""
import json, os, sys, importlib, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
NA = {
 'P24': 'needs a model of MPI processes and message schedules: the contracts in reach are over one sequential function at a time, and no MPI or GDAL file layer can be put under contract here',
 'P25': 'a statement about thread schedules of OpenMP regions; the verifier reasons about sequential C++ only and the extraction ignores the pragmas',
 'P26': 'the Python layer and its pybind11 bridge are outside every contract language available here',
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(V, 'specs', p.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('specs.' + p.lower())
        checks.append({'property': p, 'quick_cmd': './check.sh %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh %s' % p,
                       'technique': getattr(m, 'TECHNIQUE', 'contracts on the real code, extracted to WhyML; why3 obligations discharged by SMT solvers; bounded stand-ins labelled as such'),
                       'level': m.LEVEL, 'level_note': m.NOTE})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no check built yet')})
commits = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n')
hooks = [l.split(' ')[0] for l in commits if 'verify:' in l]
json.dump({'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'RICHDEM_VERIFY', 'enable': 'rdv/ast.py passes -DRICHDEM_VERIFY to the clang that reads the sources', 'source_commits': hooks},
           'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
