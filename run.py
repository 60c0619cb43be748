"""Decides one property: run.py C01 [--tier quick|thorough] [--replay FILE]"""

import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from tklib import harness

    try:
        sys.stdout.reconfigure(errors="backslashreplace")
        rv = harness.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rv = 2
    sys.stdout.flush()
    sys.exit(rv)
