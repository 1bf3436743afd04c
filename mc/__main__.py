import importlib
import json
import os
import pathlib
import sys

from . import core


def find_check(pid):
    here = pathlib.Path(__file__).parent / "checks"
    for fn in sorted(here.glob("c*.py")):
        if fn.stem.split("_")[0].upper() == pid.upper():
            return importlib.import_module(f"mc.checks.{fn.stem}")
    raise SystemExit(f"no check for {pid}")


def main(argv):
    if argv[0] == "--replay":
        with open(argv[1]) as fp:
            rec = json.load(fp)
        check = importlib.import_module(rec["check"])
        if hasattr(check, "prepare"):
            check.prepare(rec["tier"])
        env = core.Env()
        try:
            if hasattr(check, "setup_env"):
                check.setup_env(env)
            res, viol = core.exec_case(check, rec["case"], env)
        finally:
            env.close()
        if viol:
            print(viol["message"])
            print(viol.get("traceback") or "")
            print(f"VIOLATION property={rec['property']} replay={argv[1]}")
            return 1
        print("no violation")
        return 0
    if argv[0] == "--list":
        n = 0
        check = find_check(argv[1])
        tier = argv[2] if len(argv) > 2 else "quick"
        for n, c in enumerate(check.cases(tier), 1):
            if n <= 20 or n % 5000 == 0:
                print(n, json.dumps(c, default=repr)[:300])
        print("total", n)
        return 0
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    assert tier in ("quick", "thorough"), tier
    return core.main(find_check(argv[0]), tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
