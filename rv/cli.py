import importlib
import os
import sys


def main(argv):
    from rv import core
    import girth
    home = os.path.realpath(os.path.dirname(girth.__file__))
    if home != os.path.realpath(os.path.join(core.REPO, "estimation")):
        print(f"girth is imported from {home}, not from {core.REPO}")
        return 2
    if argv[0] == "--setup":
        print("girth imported from", home)
        return 0
    if argv[0] == "--replay":
        return core.replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if argv[0] == "--case":     # --case C01 '{"kind":...}'
        import json
        module = importlib.import_module("rv.checks." + argv[1].lower())
        print(json.dumps(core.run_one(module, json.loads(argv[2]), 600), indent=1)[:6000])
        return 0
    module = importlib.import_module("rv.checks." + argv[0].lower())
    return core.run_check(module, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
