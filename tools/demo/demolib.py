"""Builds the library from the sources in the current directory (a checkout) in a scratch directory and drives it."""
import os, sys, ctypes, sqlite3, subprocess, tempfile, shutil, glob, json, atexit
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
SRC = REPO + "/geodiff/src"
DIR = tempfile.mkdtemp(prefix="demo-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
atexit.register(shutil.rmtree, DIR, True)
os.environ["TMPDIR"] = DIR + "/"
_n = [0]


def path(name):
    _n[0] += 1
    d = f"{DIR}/{_n[0]}"
    os.makedirs(d, exist_ok=True)
    return f"{d}/{name}"


def sources():
    out = []
    for pat in ("*.cpp", "3rdparty/*.cpp", "drivers/*.cpp"):
        out += sorted(glob.glob(SRC + "/" + pat))
    return [s for s in out if not s.endswith("/geodiffinfo.cpp")] + [HERE + "/gpkg_shim.cpp"]


def compile_all(srcs, out, flags, link):
    conf = DIR + "/conf"
    os.makedirs(conf, exist_ok=True)
    with open(REPO + "/geodiff/cmake_templates/geodiff_config.hpp.in") as f, open(conf + "/geodiff_config.hpp", "w") as g:
        g.write(f.read().replace("#cmakedefine HAVE_POSTGRES", "#define HAVE_POSTGRES"))
    base = ["g++", "-w", "-O0", "-fPIC", "-DSQLITE_CORE", "-DSQLITE_ENABLE_SESSION", "-DSQLITE_ENABLE_PREUPDATE_HOOK", "-DENABLE_TESTS",
            "-I" + HERE, "-I" + conf, "-I" + SRC, "-I" + SRC + "/3rdparty", "-I" + SRC + "/drivers", "-I/usr/include/postgresql"] + flags

    def one(s):
        o = f"{DIR}/{os.path.basename(s)}.o"
        r = subprocess.run(base + ["-std=gnu++11" if s.startswith(SRC) else "-std=gnu++14", "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print(r.stdout.decode(errors="replace")[-2000:])
            os._exit(3)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    subprocess.run(["g++"] + flags + objs + ["-o", out] + link, check=True)
    for o in objs:
        os.unlink(o)
    return out


class Geo:
    """the library, loaded into this process; pg: with the libpq stand-in (pgemu.cpp) instead of libpq"""

    def __init__(self, pg=False):
        so = compile_all(sources() + ([HERE + "/pgemu.cpp"] if pg else []), DIR + "/libgeodiff.so", ["-shared"], ["-lsqlite3"] + ([] if pg else ["-lpq"]) + ["-lpthread", "-ldl", "-lm"])
        self.lib = ctypes.CDLL(so)
        self.log = []
        t = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p)
        self._cb = t(lambda l, m: self.log.append((l, m)))
        self.lib.GEODIFF_init()
        self.lib.GEODIFF_setLoggerCallback(self._cb)
        self.lib.GEODIFF_setMaximumLoggerLevel(4)

    def __getattr__(self, name):
        f = getattr(self.lib, "GEODIFF_" + name)

        def call(*a):
            self.log.clear()
            return f(*[x.encode() if isinstance(x, str) else x for x in a])
        return call

    def ok(self, name, *a):
        rc = getattr(self, name)(*a)
        check(rc == 0, f"{name} returned {rc}: {self.log[-3:]}")

    def diff(self, a, b):
        p = path("diff")
        self.ok("createChangeset", a, b, p)
        return p

    def json(self, diff, summary=False):
        p = path("out.json")
        self.ok("listChangesSummary" if summary else "listChanges", diff, p)
        with open(p, "rb") as f:
            return json.loads(f.read())["geodiff_summary" if summary else "geodiff"]


def db(sql, name="x.db", rows=()):
    p = path(name)
    c = sqlite3.connect(p)
    c.executescript(sql)
    for q, v in rows:
        c.execute(q, v)
    c.commit()
    c.close()
    return p


def copy(p, sql=None, rows=()):
    q = path("copy.db")
    shutil.copy(p, q)
    if sql or rows:
        run(q, sql or "", rows)
    return q


def run(p, sql, rows=()):
    c = sqlite3.connect(p)
    c.executescript(sql)
    for q, v in rows:
        c.execute(q, v)
    c.commit()
    c.close()


def query(p, sql):
    c = sqlite3.connect(p)
    c.text_factory = bytes
    try:
        return [tuple(x.decode("utf-8", "surrogateescape") if isinstance(x, bytes) and False else x for x in r) for r in c.execute(sql)]
    finally:
        c.close()


def dump(p):
    c = sqlite3.connect(p)
    c.text_factory = lambda b: b.decode("utf-8", "surrogateescape")
    try:
        out = {}
        for (t,) in c.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'").fetchall():
            q = '"' + t.replace('"', '""') + '"'
            out[t] = sorted(map(repr, c.execute("SELECT * FROM " + q)))
        return out
    finally:
        c.close()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def write(p, b):
    with open(p, "wb") as f:
        f.write(b)
    return p


def check(cond, msg):
    if not cond:
        print("PROPERTY BROKEN:", msg)
        sys.stdout.flush()
        sys.exit(1)


# --- changesets
def varint(n):
    out = []
    while True:
        out.append(n & 127)
        n >>= 7
        if not n:
            break
    return bytes([b | 128 for b in out[:0:-1]] + [out[0]])


def val(v):
    import struct
    if v is Ellipsis:
        return b"\0"
    if v is None:
        return b"\5"
    if isinstance(v, int):
        return b"\1" + struct.pack(">q", v)
    if isinstance(v, float):
        return b"\2" + struct.pack(">d", v)
    if isinstance(v, str):
        v = v.encode()
        return b"\3" + varint(len(v)) + v
    return b"\4" + varint(len(v)) + v


def tablerec(name, pk):
    return b"T" + varint(len(pk)) + bytes(pk) + name.encode() + b"\0"


INS, UPD, DEL = 18, 23, 9


def entry(op, old=None, new=None):
    return bytes([op, 0]) + b"".join(map(val, old or ())) + b"".join(map(val, new or ()))


class Pg:
    """an emulated PostgreSQL server (the library has to be built with the libpq stand-in: Geo(pg=True))"""

    def __init__(self, g):
        self.L = g.lib
        self.L.PQconnectdb.restype = self.L.PQexec.restype = ctypes.c_void_p
        self.L.PQerrorMessage.restype = self.L.PQgetvalue.restype = ctypes.c_char_p
        p = path("pg.db")
        sqlite3.connect(p).close()
        self.info = "host=localhost dbname=" + p
        self.c = ctypes.c_void_p(self.L.PQconnectdb(self.info.encode()))

    def exec(self, *sqls):
        out = []
        for q in sqls:
            r = ctypes.c_void_p(self.L.PQexec(self.c, q.encode()))
            if self.L.PQresultStatus(r) not in (1, 2):
                print("set-up failed:", q, self.L.PQerrorMessage(self.c))
                os._exit(4)
            out = [[None if self.L.PQgetisnull(r, i, j) else self.L.PQgetvalue(r, i, j).decode("utf-8", "replace") for j in range(self.L.PQnfields(r))] for i in range(self.L.PQntuples(r))] if self.L.PQresultStatus(r) == 2 else []
            self.L.PQclear(r)
        return out

    def close(self):
        self.L.PQfinish(self.c)
