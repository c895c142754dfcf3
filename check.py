#!/usr/bin/env python3
"""python3 check.py Cnn [thorough]: decides one property (tier from the argument or VERIF_TIER, seed from VERIF_SEED)."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.core import Check, CheckError

if __name__ == "__main__":
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("props." + prop.lower())
    ck = Check(prop)
    try:
        sys.exit(mod.main(ck))
    except CheckError as e:
        print(f"ERROR: the check of {prop} could not be carried out: {e}")
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
