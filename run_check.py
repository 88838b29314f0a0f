#!/usr/bin/env python3
"""Runs the check of one property: python3 -B run_check.py C01 [--tier T] [--replay FILE]

Builds /repo's current library sources with sanitizers and coverage
instrumentation, runs the property's workload in parallel shards under its
monitors, and writes evidence/<id>.json.
Exit: 0 held, 1 VIOLATION, 2 inconclusive or an error of the check itself.
"""
import array, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from mon import config  # noqa: E402


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    scale = 1.0
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]
        elif args[i] == "--seed": seed = int(args[i + 1])
        elif args[i] == "--replay": replay = args[i + 1]
        elif args[i] == "--scale": scale = float(args[i + 1])
        else:
            print("unknown argument", args[i]); return 2
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import mon.runner as runner
    return runner.run(pid, tier, seed, replay, scale)


if __name__ == "__main__":
    sys.exit(main())
