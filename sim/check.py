#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seconds N] [--seed N] [--only scenario]
   check.py replay FILE
   check.py determinism [N]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
import build as B
from props import PROPS


def main():
    a = sys.argv[1:]
    opt = {}
    pos = []
    i = 0
    while i < len(a):
        if a[i].startswith("--"):
            opt[a[i][2:]] = a[i + 1]
            i += 2
        else:
            pos.append(a[i])
            i += 1
    if pos[0] == "replay":
        return driver.replay_file(pos[1], PROPS)
    if pos[0] == "determinism":
        import determinism
        return determinism.main(int(pos[1]) if len(pos) > 1 else 20)
    tier = opt.get("tier") or os.environ.get("VERIF_TIER", "quick")
    base = int(opt.get("seed") or os.environ.get("VERIF_SEED", "1"))
    rc = 0
    for p in pos:
        d = PROPS[p]
        sec = float(opt.get("seconds") or os.environ.get("VERIF_SECONDS") or
                    (d.get("quick", 30) if tier == "quick" else d.get("thorough", 600)))
        r = driver.check(p, d, tier, base, sec, opt["only"].split(",") if "only" in opt else None)
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("BUILD ERROR\n%s" % e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
