#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] -- decide one property from the
source of /repo.  Exit 0: held; 1: VIOLATION line printed; 2: analysis broken."""
import importlib
import os
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    root = os.environ.get("VERIF_ROOT", "/repo")
    from props.ctx import Ctx, Broken
    ctx = Ctx(pid, tier, root)
    try:
        mod = importlib.import_module("props." + pid.lower())
        mod.run(ctx)
        return ctx.finish(mod.LEVEL, mod.EXPLANATION)
    except Broken as e:
        print("analysis broken: %s" % e)
        return 2
    except Exception:
        traceback.print_exc(limit=-6)
        return 2


if __name__ == "__main__":
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
