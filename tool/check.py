#!/usr/bin/env python3
"""check.py PROPERTY: decide one property from /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import lib


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    m = importlib.import_module("rules." + pid.lower())
    chk = lib.Check(pid, tier, m.LEVEL)
    try:
        m.run(chk)
    except Exception as e:
        if not isinstance(e, (lib.Missing, lib.ExtractError)):
            traceback.print_exc()
        chk.missing("analysis", "%s: %s" % (type(e).__name__, str(e)[-1500:]))
    return chk.finish()


if __name__ == "__main__":
    # deep terms: a big stack
    import threading
    threading.stack_size(512 << 20)
    r = []
    t = threading.Thread(target=lambda: r.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    if not r:
        print("VIOLATION property=%s replay=none" % sys.argv[1])
    sys.exit(r[0] if r else 1)
