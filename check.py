#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property on /repo's working tree."""
import importlib, os, sys, traceback
here = os.path.dirname(os.path.abspath(__file__))
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'checks')]
sys.dont_write_bytecode = True
import vt
pid = sys.argv[1]
mod = importlib.import_module(pid)
chk = vt.Check(pid)
try:
    mod.main(chk)
except (vt.CheckError, vt.vbuild.BuildError):
    traceback.print_exc()
    if not chk.viol:
        print('%s: no answer' % pid)
        sys.exit(2)
sys.exit(chk.finish())
