import os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), "checks"))
import core, importlib


def go():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(prop.lower())
    if tier == "replay":
        return core.replay(mod, sys.argv[3])
    return core.main(mod, tier, seed)


if __name__ == "__main__":
    try:
        rc = go()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
