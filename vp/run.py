"""CLI: python -m vp.run C01 [--tier quick|thorough] [--seed N] [--only SUB] [--replay FILE]"""
import argparse
import os
import sys

from . import engine


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.replay:
        return engine.replay(a.prop, a.replay)
    if a.worker is not None:
        engine.worker(a.prop, a.tier, a.seed, a.worker, a.out, a.only)
        return 0
    return engine.main(a.prop, a.tier, a.seed, a.only)


if __name__ == "__main__":
    sys.exit(main())
