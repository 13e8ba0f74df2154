#!/usr/bin/env python3
"""run.py CXX            runs the check of property CXX (VERIF_SEED, VERIF_TIER)
run.py --shard ...    internal: one shard process"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import vf
if __name__ == "__main__":
    if sys.argv[1] == "--shard":
        vf.shard_main(*sys.argv[2:5])
    else:
        if len(sys.argv) > 2:
            os.environ["VERIF_TIER"] = sys.argv[2]
        sys.exit(vf.run_check(sys.argv[1]))
