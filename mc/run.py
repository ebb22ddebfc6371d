"""python3 mc/run.py C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import boot


def cli():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    boot.reexec()
    boot.load()
    from mc import core
    return core.main(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.replay)


if __name__ == "__main__":
    sys.exit(cli())
