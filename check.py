#!/usr/bin/env python3-vt
"""check.py <property id>: analyse the current sources of the repository for one property."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(40000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    from engine import ctx as C
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = C.Ctx(pid, 'thorough' if tier == 'thorough' else 'quick', seed)
    box.append(c)
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        if getattr(mod, 'NEEDS_PROGRAM', True):
            c.load()
        try:
            mod.run(c)
        except C.TimeUp:
            c.und('the remaining scenarios', 'the time of the run is used up')
    except Exception:
        traceback.print_exc()
        print('analysis broken: %s' % pid)
        return 2
    c.limits = []
    return c.finish(getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', ()))


rc = [2]
box = []


def go():
    rc[0] = main()


if __name__ == '__main__':
    t = threading.Thread(target=go)
    t.start()
    while t.is_alive() and not box:
        t.join(0.2)
    if box:
        box[0].worker = t
        box[0].watch()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
