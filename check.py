#!/usr/bin/env python3
"""
Run the check of one property: python3 check.py C01 [--tier quick|thorough]

The tier is that of VERIF_TIER if not given. The code under test is imported
from /repo's working tree.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def reexec():
    env = dict(os.environ)
    env.update(VERIF_CHILD='1', PYTHONDONTWRITEBYTECODE='1',
               PYTHONNOUSERSITE='1', LANG='C.UTF-8', HOME='/root',
               PYTHONHASHSEED='0', NUMEXPR_NUM_THREADS='1',
               NUMEXPR_MAX_THREADS='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', GDAL_NUM_THREADS='1', TZ='UTC', CPL_LOG='/dev/null',
               PYTHONWARNINGS='ignore',
               PYTHONPATH=':'.join([os.path.join(HERE, 'lib'), REPO,
                                    os.path.join(REPO, 'utilities'),
                                    os.path.join(REPO, 'topographic')]))
    for k in ('VERIF_HOOKS',):
        env.pop(k, None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    if os.environ.get('VERIF_CHILD') != '1':
        reexec()
    import argparse
    import logging
    logging.disable(logging.CRITICAL)
    import importlib.util
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', choices=['quick', 'thorough'])
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(HERE, 'lib'))
    import vlib
    fn = os.path.join(HERE, 'checks', a.prop.lower() + '.py')
    spec = importlib.util.spec_from_file_location('check_' + a.prop, fn)
    mod = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(mod)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
    sys.exit(vlib.main(a.prop, mod.run, a.tier))
