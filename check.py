#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   or   check.py --job entry,p0,p1 ..."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import runner            # noqa: E402


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a[0] == "--job":
        os.environ["VERBOSE"] = "1"
        ll = "" if all(x.startswith("py_") for x in a[1:]) else runner.build()
        jobs = []
        for x in a[1:]:
            e, *ps = x.split(",")
            jobs.append(runner.Job(e, *[int(p) for p in ps], budget=int(os.environ.get("BUDGET", "150"))))

        def show(j, r):
            print("%-44s %s" % (j.name, runner.summary(r)), flush=True)
            for v in r.get("violations", []):
                ok, how = runner.confirm(j, v, "/tmp/replay.%s.%d" % (j.name.replace(",", "_"), os.getpid()))
                print("     native: %s %s" % (ok, how))
                if os.environ.get("SHOW"):
                    print("     ", v["candidates"][:2], "\n      ", v["pc"])
            if os.environ.get("LABELS"):
                print("     ", r.get("labels"))
            d = [runner.validate(j, w, "/tmp/w.%d" % os.getpid()) for w in r.get("witness", [])]
            if "differs" in d:
                print("     witness", d)
        runner.run_jobs(ll, jobs, seed, on_result=show)
        return 0
    from checks import PROPS
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return runner.run_property(a[0], PROPS[a[0]], tier, seed, 820 if tier == "quick" else 6 * 3600)


if __name__ == "__main__":
    sys.exit(main())
