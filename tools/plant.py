#!/usr/bin/env python3
"""
Write the planted bugs described in tools/bugs/*.py to /verif/seeded.

python3 tools/plant.py [id ...]: for each bug, make the patch in a scratch copy
of /repo, and confirm that the stable tests pass with it, and that the
demonstration passes without it and fails with it. No check uses this.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = open(os.path.join(V, 'tools', 'bugs', 'preamble.txt')).read()
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs', '*.py'))):
    exec(open(f).read())

DEMO = '''#!/bin/bash
# run with the repository as current directory
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD:$PWD/utilities:$PWD/topographic PYTHONDONTWRITEBYTECODE=1
export HOME=/root PYTHONNOUSERSITE=1 REPO=$PWD PYTHONWARNINGS=ignore
exec timeout 250 /opt/venv/bin/python "$d/demo.py"
'''


def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def tests(c):
    env = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', PYTHONHASHSEED='0',
               PYTEST_DISABLE_PLUGIN_AUTOLOAD='1',
               PYTHONPATH=':'.join(c + x for x in ('', '/utilities', '/topographic', '/tests', '/tests/test_topographic')))
    rc, out = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], c, env)
    return '; '.join(x[:90] for x in out.strip().splitlines() if x.startswith('FAILED') and 'test_clip' not in x) + ' ' + out.strip().splitlines()[-1]


want = sys.argv[1:]
base = None
for b in BUGS:
    if want and b['id'] not in want:
        continue
    d = os.path.join(V, 'seeded', b['id'])
    if not want and os.path.exists(os.path.join(d, 'patch.diff')):
        continue
    c = tempfile.mkdtemp(prefix='plant_')
    try:
        sh(['git', 'clone', '-q', '/repo', c + '/r'], '/')
        r = c + '/r'
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(PRE + b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh(['bash', d + '/demo.sh'], r)
        for f, old, new in b['edits']:
            s = open(r + '/' + f).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(r + '/' + f, 'w').write(s.replace(old, new))
        sh(['git', 'checkout', '-q', '--', 'tests'], r)
        _, diff = sh(['git', 'diff'], r)
        open(d + '/patch.diff', 'w').write(diff)
        rc1, o1 = sh(['bash', d + '/demo.sh'], r)
        t = tests(r)
        sh(['git', 'status', '--short'], r)
        ok = rc0 == 0 and rc1 not in (0, 124) and '32 passed' in t
        print('%-6s %-4s clean rc=%d patched rc=%d tests: %s %s' % (b['id'], b['prop'], rc0, rc1, t, 'ok' if ok else '*** BAD'))
        if not ok:
            print(o0[-1500:], '\n-----\n', o1[-1500:])
        else:
            print('      ', o1.strip().splitlines()[-1][:200])
    finally:
        shutil.rmtree(c, ignore_errors=True)
