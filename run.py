#!/usr/bin/env python3
"""run.py <property id> [--replay file]: runs one check, or one recorded case of it again."""
import sys, os, json, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))

if __name__ == "__main__":
    cid = sys.argv[1]
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        r = json.load(open(sys.argv[3]))
        os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(r["seed"]), r["tier"]
        only = [r["index"]]
    elif len(sys.argv) > 3 and sys.argv[2] == "--only":
        only = [int(x) for x in sys.argv[3].split(",")]
    import vf, build
    m = importlib.import_module(cid.lower())
    try:
        rc = m.main(only)
    except build.BuildError as e:
        print("BUILD-ERROR", e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
