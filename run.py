#!/usr/bin/env python3
"""Run one property check: python3 run.py C01 [--verbose]"""
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
from sa.check import Check, Broken
from sa.core import TimeUp

def main(pid):
    chk = Check(pid)
    try:
        importlib.import_module('checks.' + pid).run(chk)
    except Broken as e:
        chk.errors.append(str(e))
    except (Exception, TimeUp) as e:
        import traceback
        traceback.print_exc()
        if not any(x[0] == 'ok' for x in chk.items):
            raise
        chk.undecided('rest of the check', 'reaches', 'analysis stopped: %s %s' % (type(e).__name__, e))
    return chk.finish()

if __name__ == '__main__':
    rc = [2]
    def go():
        import traceback
        try:
            rc[0] = main(sys.argv[1])
        except BaseException:
            traceback.print_exc()
            rc[0] = 3
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
