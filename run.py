#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
import checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.property
    if pid not in checks.CHECKS:
        print("unknown property", pid)
        return 2
    for f in os.listdir(core.REPLAYS) if os.path.isdir(core.REPLAYS) else []:
        if f.startswith(pid + "-"):
            os.remove(os.path.join(core.REPLAYS, f))
    res = core.Result(pid)
    work = core.Work(pid)
    try:
        meta = checks.CHECKS[pid](res, work, a.tier, a.seed) or {}
    except core.Broken as e:
        print("ERROR: the check could not decide: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not a.keep:
            work.close()
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "model_checking", "coverage": res.cover,
          "assumptions": checks.ASSUMPTIONS.get(pid, []) + checks.ASSUMPTIONS["*"],
          "wall_s": round(time.time() - res.t0, 1), "violations": len(res.violations)}
    if res.known:
        ev["known_findings"] = [k for k, _ in res.known]
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for _, what in res.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for _, text, path in res.violations[:5]:
        print("  " + text)
    if len(res.violations) > 5:
        print("  ... and %d more" % (len(res.violations) - 5))
    if res.violations:
        print("VIOLATION property=%s replay=%s" % (pid, res.violations[0][2]))
        return 1
    print("OK property=%s tier=%s seed=%d wall=%.1fs %s" % (pid, a.tier, a.seed, time.time() - res.t0,
          {k: v for k, v in res.cover.items() if isinstance(v, int)}))
    return 0


if __name__ == "__main__":
    sys.exit(main())
