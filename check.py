import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from mc import env, report  # noqa: E402,F401

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    rc = report.run_check(pid, mod, sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
