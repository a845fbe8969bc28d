"""Runs the Python module of /repo: one JSON request per line on stdin, one reply per line on stdout.
argv: directory that holds the package"""
import sys, os, json, gc, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1])
import pygeodiff

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
objs, log = {}, []


def logger(tag):
    pad = [0] * 50
    def cb(level, msg):
        log.append([tag, level, msg.hex() if isinstance(msg, bytes) else repr(msg), len(pad)])
    return cb


def handle(q):
    op = q["op"]
    if op == "new":
        objs[q["id"]] = pygeodiff.GeoDiff(*q["args"])
    elif op == "del":
        del objs[q["id"]]
        gc.collect()
        return len([bytes(96) for _ in range(2000)])
    elif op == "logger":
        return objs[q["id"]].set_logger_callback(logger(q["tag"]))
    elif op == "level":
        return objs[q["id"]].set_maximum_logger_level(q["level"])
    elif op == "call":
        return getattr(objs[q["id"]], q["fn"])(*q["args"])
    elif op == "env":
        for k, v in q["env"].items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
    elif op == "chdir":
        os.chdir(q["dir"])
    elif op == "facts":
        from pygeodiff.__about__ import __version__
        from ctypes.util import find_library
        G = pygeodiff.GeoDiff
        return {"version": __version__, "levels": [G.LevelError, G.LevelWarning, G.LevelInfo, G.LevelDebug], "system": find_library("geodiff"),
                "names": sorted(n for n in dir(G) if not n.startswith("_") and callable(getattr(G, n)))}


for line in sys.stdin:
    q = json.loads(line)
    del log[:]
    r = {}
    try:
        v = handle(q)
        r["val"] = v
        r["type"] = type(v).__name__
    except Exception as e:
        r["exc"] = [c.__name__ for c in type(e).__mro__]
        r["msg"] = str(e)
        r["public"] = [n for n in dir(pygeodiff) if isinstance(getattr(pygeodiff, n), type) and type(e) is getattr(pygeodiff, n)]
    r["log"] = list(log)
    out.write(json.dumps(r) + "\n")
    out.flush()
