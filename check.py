#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property against the working tree of /repo."""
import sys, os, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build
from vlib.report import Check

MODULES = {"F01": "props_raw", "F02": "props_raw", "F03": "props_raw", "F04": "props_elem", "F05": "props_elem", "F06": "props_elem", "F07": "props_elem", "F08": "props_elem", "F09": "props_elem", "F10": "props_const", "C01": "props_tower", "C02": "props_tower", "C03": "props_curve", "C04": "props_sum", "C05": "props_sum", "C06": "props_sum", "C07": "props_fft", "C08": "props_engine", "U01": "props_misc", "U02": "props_misc", "B01": "props_bin", "B02": "props_bin"}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Check(prop, tier, seed)
    try:
        mod = __import__("vlib." + MODULES[prop], fromlist=["run"])
        rc = mod.run(ck)
    except build.BuildError as e:
        print("ERROR: the working tree does not build:", str(e)[:1500])
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    build.cleanup()
    os._exit(rc)


main()
