#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] [-v] [--only h1,h2] [--budget s]  |  check.py --replay <file>"""
import json
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv" or not sys.dont_write_bytecode:
    os.execv(PY, [PY, "-B", *sys.argv])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("OMP_NUM_THREADS", "1")


def main():
    a = sys.argv[1:]
    from sx import runner

    if a and a[0] == "--replay":
        v = json.load(open(a[1]))
        import harness

        prop = harness.get(v["property"])
        h = next(x for x in prop.harnesses if x.name == v["harness"])
        p = v["params"]
        p = next((q for q in (h.thorough or []) + h.params if json.loads(json.dumps(q, default=str)) == p), p)
        r = runner.replay(h, p, v["values"], 60, True)
        print(r)
        return 1 if r[0] == "violation" else 0
    pid = a[0]
    tier = next((x for x in a[1:] if x in ("quick", "thorough")), os.environ.get("VERIF_TIER", "quick"))
    verbose = "-v" in a
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    budget = float(a[a.index("--budget") + 1]) if "--budget" in a else None
    import harness

    prop = harness.get(pid)
    return runner.main(pid, prop.title, prop.harnesses, tier, budget=budget, seed=int(os.environ.get("VERIF_SEED", "1")), verbose=verbose, assumptions=prop.assumptions, only=only)


if __name__ == "__main__":
    sys.exit(main())
