"""usage: python run.py <property id> [--tier quick|thorough] [--replay FILE] [--seed N]"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('TZ') != 'UTC':
    os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC', LANG='C.UTF-8', LC_ALL='C.UTF-8')
    os.environ.pop('PYTHONPATH', None)
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
import argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pbt import core
ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--replay')
a = ap.parse_args()
try:
    code = core.main(a.property.upper(), a.tier, a.seed, a.replay)
except core.HarnessError as e:
    print('HARNESS ERROR: %s' % e, file=sys.stderr)
    code = 2
sys.stdout.flush()
sys.exit(code)
