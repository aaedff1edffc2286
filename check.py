#!/opt/venv/bin/python
"""check.py <PROPERTY> [quick|thorough]   |   check.py --replay FILE"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2 and sys.argv[1] == "--replay":
    from lib import runner
    sys.exit(runner.replay(sys.argv[2]))
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
try:
    from lib import runner
    rc = runner.main(sys.argv[1], tier)
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 3
sys.stdout.flush()
sys.exit(rc)
