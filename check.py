#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: static analysis of /repo for one property."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from hpa.obl import Check
    c = Check(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    m = importlib.import_module("rules." + pid.lower())
    return m.check(c)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            box.append(main())
        except SystemExit as e:
            box.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            box.append(3)
    t = threading.Thread(target=go)
    t.start()
    import ctypes
    import time
    from hpa import obl
    while t.is_alive():
        t.join(0.5)
        if obl.WATCH[0] is not None and time.time() > obl.WATCH[0]:
            obl.WATCH[0] = time.time() + 10
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(obl.TooLong))
    sys.stdout.flush()
    os._exit(box[0] if box else 3)
