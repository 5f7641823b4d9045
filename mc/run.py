import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    mod = importlib.import_module("mc.checks." + a.property.lower())
    from mc import core
    rc = core.main(mod.CHECK, a.tier, seed, a.replay)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
