"""check.py C14 [--tier quick|thorough]: prove the contracts of one property on /repo's current source.

Exit 0: every obligation was discharged.  Exit 1 with a VIOLATION line: an obligation failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from pyv import driver  # noqa: E402

if __name__ == "__main__":
    sys.exit(driver.main(HERE))
