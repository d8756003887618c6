import importlib
import json
import os
import sys
import tempfile

from . import core


def load(pid):
    core.setup_paths()
    name = pid.lower()
    for m in os.listdir(os.path.join(core.VERIF, "mc", "checks")):
        if m.startswith(name + "_") and m.endswith(".py"):
            return importlib.import_module(f"mc.checks.{m[:-3]}")
    sys.exit(f"no check for property {pid}")


def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            rec = json.load(f)
        check = load(rec["property"])
        core._check = check
        with tempfile.TemporaryDirectory() as scratch:
            os.chdir(scratch)
            _, failure, *_ = core._run_one((0, rec["case"]))
            os.chdir("/")
        print(json.dumps(failure, indent=1) if failure else "the recorded case passes on this tree")
        sys.exit(1 if failure else 0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = load(pid)
    with tempfile.TemporaryDirectory() as scratch:   # whatever the code writes relative to the cwd lands here
        os.chdir(scratch)
        try:
            code = core.run(check, tier, seed)
        finally:
            os.chdir("/")
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
