#!/usr/bin/env python3
"""check.py <property id>: runs one property's check (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    import props
    try:
        rc = props.CHECKS[pid](pid)
    except vlib.CheckError as e:
        print(f"ERROR in the check of {pid}: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

main()
