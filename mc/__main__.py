import importlib
import os
import sys

from . import engine


def main():
    if sys.argv[1] == "replay":
        return engine.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("mc.props." + prop.lower())
    return engine.Check(prop, tier, mod).main()


try:
    code = main()
except Exception:
    import traceback

    traceback.print_exc()
    code = 3
sys.stdout.flush()
os._exit(code)
