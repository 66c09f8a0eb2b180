#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to regenerate the file)."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
T = 'TLA+ specification %s checked exhaustively with TLC; %s'
REC = 'records of the real code judged by TLC against the specification (%s)'
C = {
    'C01': ('Tiling', REC % 'TilingTrace', 'exhaustive on dimensions up to 4 (6), steps 3 (4), buffers 3 (6) cells; the code is judged on hundreds (thousands) of generated rasters, small ones enumerated; trusts GDAL to read back the georeference'),
    'C02': ('Tiling', REC % 'TilingTrace', 'as C01, on the buffered limits'),
    'C03': ('Tiling', REC % 'TilingTrace', 'as C01, on names and coordinate extents (to 1/1000 cell)'),
}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
NA = {}
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         hooks=dict(guard='VERIF_HOOKS', enable='no hook is needed: the checks use public functions, files, audit events and a stand-in mpi4py; the variable is reserved', source_commits=[]),
         notes='Specifications in spec/ (TLA+, TLC), harnesses in checks/ and lib/. python3 check.py <id> runs one check.')
for i in ids:
    if i in C and os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        spec, how, note = C[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                                thorough_cmd='python3 check.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i,
                                technique=T % (spec, how), level='model_checking', level_note=note))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'the check is not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
