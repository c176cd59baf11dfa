#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [--only ITEM] [-v]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core


def main():
    a = sys.argv[1:]
    prop = a[0]
    def opt(n, d=None):
        return a[a.index(n) + 1] if n in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    only = opt("--only")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return core.main(prop, "mc." + prop.lower(), tier, seed, opt("--replay"), [only] if only else None, "-v" in a)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
