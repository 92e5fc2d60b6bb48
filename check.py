#!/usr/bin/env python3
"""check.py <property id>: decides one property for the code in /repo's working tree (VERIF_SEED, VERIF_TIER)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("PROJ_NETWORK", "OFF")
from vf import harness, registry

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(harness.main(pid, registry.CHECKS[pid]))
