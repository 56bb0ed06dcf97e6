"""python -m mon.run <property> <quick|thorough>"""
import importlib
import os
import sys
import warnings


def index():
    here = os.path.dirname(os.path.abspath(__file__))
    return sorted(f[:-3] for f in os.listdir(here)
                  if f.startswith("m") and f[1:3].isdigit() and f.endswith(".py"))


def load(prop):
    for name in index():
        if name.split("_")[0].upper() == prop.upper():
            return importlib.import_module("mon." + name)
    raise SystemExit("unknown property " + prop)


def main():
    warnings.simplefilter("ignore")
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import core

    mod = load(prop)
    budget = 240 if tier == "quick" else 800
    sys.stdout.flush()
    status = core.run_property(mod, tier, seed, budget)
    sys.stdout.flush()
    sys.exit(status)


if __name__ == "__main__":
    main()
