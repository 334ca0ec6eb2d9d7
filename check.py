#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property on /repo's working tree."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python3'
if sys.executable != PY and os.path.exists(PY) and not os.environ.get('VERIF_PY'):
    os.environ['VERIF_PY'] = '1'
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if not os.path.exists(os.path.join(HERE, 'build', 'tmsym')):
        import subprocess
        subprocess.check_call(['bash', os.path.join(HERE, 'engine', 'build.sh')])
    from vlib import core
    mod = importlib.import_module('props.' + pid.lower())
    sys.exit(core.run_property(mod.prop(tier), tier, seed))
main()
