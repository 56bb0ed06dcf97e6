"""python -m mon.replay <file>: re-executes one recorded violating case."""
import json
import sys

from . import core
from .run import load


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    mod = load(r["property"])
    if r["kind"] is None:  # observations that did not happen: all cases
        sys.exit(core.run_property(mod, r["tier"], r["seed"], 800))
    out = core.run_case(r["property"], mod.CASES[r["kind"]][0], r["kind"],
                        r["index"], r["seed"], r["tier"])
    print(json.dumps(out["desc"], indent=1))
    for v in out["violations"]:
        print("{}: {}".format(v["mech"], v["msg"]))
    print("{} violation(s)".format(len(out["violations"])))
    sys.exit(1 if out["violations"] else 0)


if __name__ == "__main__":
    main()
