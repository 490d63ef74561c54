#!/usr/bin/env python3
"""static checker: /verif/check.py --property Cxx [--tier quick|thorough] [--repo /repo]"""
import argparse
import json
import os
import sys
import time
import multiprocessing

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(40000)
import threading

threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--noevidence", action="store_true")
    a = ap.parse_args()
    from sa import runner
    rc = [2]

    def go():
        try:
            rc[0] = runner.check(a)
        except Exception:
            import traceback
            traceback.print_exc()
            rc[0] = 2

    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
