#!/usr/bin/env python3
"""
Run the check of each planted bug's property on a scratch copy of /repo with
the bug: python3 tools/trybugs.py [id ...]. No check uses this.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))


def one(i):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    c = tempfile.mkdtemp(prefix='try_')
    try:
        subprocess.run('cp -a /repo/. %s && git -C %s checkout -q -- . && git -C %s apply %s/patch.diff' % (c, c, c, d), shell=True, check=True)
        t = time.time()
        p = subprocess.run([sys.executable, 'check.py', prop], cwd=V, env=dict(os.environ, VERIF_REPO=c), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        v = [x for x in p.stdout.splitlines() if x.startswith('VIOLATION property=' + prop)]
        ok = p.returncode == 1 and v
        why = [x for x in p.stdout.splitlines() if x.strip() and not x.startswith('KNOWN')]
        return '%s %s %s rc=%d %.0fs %s' % (i, prop, 'caught' if ok else 'MISSED', p.returncode, time.time() - t, ' | '.join(why)[:160])
    finally:
        shutil.rmtree(c, ignore_errors=True)


with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
