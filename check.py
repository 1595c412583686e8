#!/usr/bin/env python3
"""check.py ID: decide property ID for the current working tree of /repo"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.setrecursionlimit(200000)
import threading
import frame


def go(out):
    if sys.argv[1] == "--setup":
        try:
            frame.ensure_dump()
        except frame.BuildError as e:
            print(e)
        out.append(0)
        return
    out.append(frame.main(sys.argv[1]))


if __name__ == "__main__":
    threading.stack_size(1 << 29)
    out = []
    t = threading.Thread(target=go, args=(out,))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 1)
