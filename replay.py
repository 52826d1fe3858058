#!/usr/bin/env python3
"""Re-run a recorded counterexample (replay/<id>/cexN.json) against the current tree of /repo.

usage: replay.py DOC      exit 1: the real code still violates the property on these inputs; 0: it no longer does.
"""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check


def main():
    d = json.load(open(sys.argv[1]))
    h = (d["harness"], tuple(d["defs"]), ())
    work = tempfile.mkdtemp(prefix="symx_replay_")
    try:
        b = check.Build(work)
        b.all([h])
        bad = False
        for binr, vg in ((b.objs[h] + ".nat", False), (b.asan(h), False), (b.objs[h] + ".nat", True)):
            rc, log = check.run_native(binr, d["entry"], d["inputs"], os.path.join(work, "in"), valgrind=vg, timeout=120)
            print("[%s%s] rc=%d\n%s" % (os.path.basename(binr).split(".")[-1], " under valgrind" if vg else "", rc, log[-2000:]))
            bad = bad or rc not in (0, 77)
        print("still violated" if bad else "not violated", "-", d["label"])
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
