#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--only harness,...] [--budget s]"""
import argparse
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def _go(out):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--nproc", type=int)
    a = ap.parse_args()
    from sx import runner
    out.append(runner.main(a.prop, a.tier, a.budget, a.nproc,
                           set(a.only.split(",")) if a.only else None))


if __name__ == "__main__":
    rc = []
    _go(rc)
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
