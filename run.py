#!/opt/venv/bin/python
"""run.py <ID> [quick|thorough]  |  run.py --replay FILE"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vt import runner  # noqa: E402

if sys.argv[1] == '--concrete':
    runner.concrete_main(sys.argv[2])
elif sys.argv[1] == '--replay':
    import json
    rec = json.load(open(sys.argv[2]))
    ok, r = runner.confirm(rec['property'], rec['config'], rec['kind'], rec['message'], rec['inputs'])
    print(json.dumps(r, indent=1))
    if r.get('tb'):
        print(r['tb'])
    print('reproduced' if ok else 'not reproduced')
    sys.exit(1 if ok else 0)
else:
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(runner.main(sys.argv[1], tier))
