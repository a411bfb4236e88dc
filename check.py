#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [-v]   (see DESIGN.md)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import plan, runner                                                    # noqa: E402


def main(a):
    if "--setup" in a:
        return plan.setup()
    if "--replay" in a:
        return runner.replay(a[a.index("--replay") + 1])
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) % (1 << 31)
    p = plan.PLAN[pid]
    jobs = p["jobs"](1 if tier == "quick" else p.get("scale", 12))
    return runner.decide(pid, tier, seed, jobs, p["rule"], p["assumes"], exhaustive=p.get("exhaustive"), verbose="-v" in a)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
