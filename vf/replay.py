"""python -m vf.replay FILE: run one counterexample against the real code in /repo."""
import importlib
import json
import os
import sys
import tempfile


def main(path):
    j = json.load(open(path))
    if not os.environ.get("HOME", "").startswith(tempfile.gettempdir()):
        os.environ["HOME"] = tempfile.mkdtemp(prefix="vfreplay_")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("RAY_USAGE_STATS_ENABLED", "0")
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    mod = importlib.import_module("checks." + j["module"])
    msg = getattr(mod, j["replay"])(j["inputs"])
    if msg:
        print("REPRODUCED " + str(msg).replace("\n", " ")[:1500])
        return 1
    print("NOT REPRODUCED")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
