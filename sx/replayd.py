"""Runs harness scenarios with concrete values on the un-instrumented code; JSON lines in/out."""
import importlib
import json
import os
import sys
import traceback


def run_one(h, E, item):
    S = E.ReplaySource(item["values"], item["case"])
    out = {}
    try:
        h.run(S, item["case"])
    except E.Infeasible:
        out["assume_failed"] = True
    except Exception as e:
        out["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
    out["failed"] = S.failed
    out["observed"] = [[a, E.plain(v)] for a, v in S.observed]
    out["checks"] = S.checks
    return out


def main():
    from . import loader
    loader.setup(symbolic=False)
    from . import engine as E
    h = importlib.import_module("harness." + sys.argv[1])
    if hasattr(h, "setup"):
        h.setup(False)
    if len(sys.argv) > 2:            # a replay file
        item = json.load(open(sys.argv[2]))
        out = run_one(h, E, item)
        print(json.dumps(out, indent=1))
        return 1 if out["failed"] else 0
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                    # prints of the code under test do not belong here
    sys.stdout = sys.stderr
    for line in sys.stdin:
        real.write(json.dumps(run_one(h, E, json.loads(line)), default=str) + "\n")
        real.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
