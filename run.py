#!/opt/venv/bin/python
"""python run.py <PROPERTY> [--replay FILE] [--tier quick|thorough] [--seed N] [--sub NAME]"""
import os
import sys

for k, v in (('OPENBLAS_NUM_THREADS', '1'), ('OMP_NUM_THREADS', '1'), ('MKL_NUM_THREADS', '1'), ('PYTHONHASHSEED', '0'),
             ('PYTHONDONTWRITEBYTECODE', '1'), ('MPLBACKEND', 'Agg')):
    os.environ.setdefault(k, v)
PY = '/opt/venv/bin/python'
if os.environ.get('VERIF_REEXEC') != '1':
    os.environ['VERIF_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    exe = PY if os.path.exists(PY) else sys.executable
    os.execv(exe, [exe, '-B', os.path.abspath(__file__)] + sys.argv[1:])

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import core  # noqa
sys.path.insert(0, core.SRC)
sys.path.append(core.HYP)
sys.dont_write_bytecode = True


def main():
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--sub')
    a = ap.parse_args()
    import numpy  # noqa
    import CTL
    import CTL.tensor.tensor  # noqa (importing diagonalTensor first is circular in CTL)
    if not os.path.abspath(CTL.__file__).startswith(os.path.abspath(core.SRC) + os.sep):
        print('imported CTL from %s, not from %s' % (CTL.__file__, core.SRC), file=sys.stderr)
        return 2
    importlib.import_module('checks.' + a.prop.lower())
    if a.sub:
        core.REGISTRY[a.prop] = [s for s in core.REGISTRY[a.prop] if s.name == a.sub]
    if a.replay:
        return core.replay(a.prop, a.replay)
    return core.run_property(a.prop, '', a.tier if a.tier in ('quick', 'thorough') else 'quick', a.seed)


if __name__ == '__main__':
    sys.exit(main())
