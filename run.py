#!/opt/venv/bin/python
"""run.py ID [--tier quick|thorough] [--only TEXT ...] | run.py --replay FILE"""
import argparse
import os
import sys

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('MPLCONFIGDIR', '/tmp/vp-mpl')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execv(py, [py] + sys.argv)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--procs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    from vp import runner
    if a.selftest:
        from vp import loader
        from vp.z3load import z3
        loader.world().load('pympc.control.controllers')
        loader.plain('pympc.control.controllers')
        print('z3', z3.get_version_string())
        return 0
    if a.replay:
        return runner.replay_file(a.replay)
    return runner.check(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), a.only, a.procs)


if __name__ == '__main__':
    sys.exit(main())
