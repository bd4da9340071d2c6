#!/usr/bin/env python3
"""check.py <module> quick|thorough      run one check
   check.py replay FILE                  re-run a recorded violation (exit 1 when it reproduces)"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim"))
import core

if __name__ == "__main__":
    if len(sys.argv) != 3:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "replay":
        rc, _ = core.replay(sys.argv[2])
        sys.exit(rc)
    try:
        sys.exit(core.check(sys.argv[1], sys.argv[2], int(os.environ.get("VERIF_SEED", "1"))))
    except KeyboardInterrupt:
        sys.exit(2)
