#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay file]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if os.environ.get('VERIF_CHILD') != '1':
    os.environ['VERIF_CHILD'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONWARNINGS'] = 'ignore'
    os.execv(PY if os.path.exists(PY) else sys.executable,
             [PY if os.path.exists(PY) else sys.executable] + sys.argv)
from mc import engine
engine.setup_env()
import argparse, importlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.selftest:
        import numpy, scipy, h5py, bayespy
        from mc import zoo
        print('ok: bayespy at', bayespy.__file__, 'zoo models:', len(zoo.ZOO))
        return 0
    mod = importlib.import_module('mc.' + a.id.lower())
    return engine.main(mod, 'thorough' if a.tier == 'thorough' else 'quick', a.replay)


if __name__ == '__main__':
    try:
        rc = main()
    finally:
        engine.cleanup_env()
    sys.stdout.flush()
    os._exit(rc)
