"""Builds what the checks run, from /repo's current working tree, into an ignored cache of /verif.
Objects are keyed by the content of everything they are made of."""
import os, sys, hashlib, subprocess, glob, fcntl, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/geodiff/src"
CACHE = os.environ.get("VERIF_BUILD", VERIF + "/.build")
NATIVE = VERIF + "/native"
PG = "/usr/include/postgresql"

class BuildError(Exception):
    pass

FLAVORS = {
    # name: (compiler, compile flags, link flags)
    "asan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all", "-fsanitize=address,undefined"),
    "tsan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread", "-fsanitize=thread"),
    "so": ("g++", "-O1 -fPIC -fvisibility=hidden", "-shared"),
    "plain": ("g++", "-O1 -g1", ""),
}
DEFS = ["-DSQLITE_CORE", "-DSQLITE_ENABLE_SESSION", "-DSQLITE_ENABLE_PREUPDATE_HOOK", "-DENABLE_TESTS", "-DGEODIFF_VERIF"]

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        b = p if isinstance(p, bytes) else p.encode()
        m.update(str(len(b)).encode() + b":" + b)
    return m.hexdigest()[:24]

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def lib_sources():
    out = []
    for pat in ("*.cpp", "3rdparty/*.cpp", "drivers/*.cpp"):
        out += sorted(glob.glob(SRC + "/" + pat))
    return [s for s in out if not s.endswith("/geodiffinfo.cpp")]

def headers():
    out = []
    for root in (SRC, REPO + "/geodiff/cmake_templates"):
        for d, _, fs in os.walk(root):
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".in"))]
    out += glob.glob(NATIVE + "/*.h")
    return sorted(out)

def _config_dir():
    tpl = _read(REPO + "/geodiff/cmake_templates/geodiff_config.hpp.in").decode()
    txt = tpl.replace("#cmakedefine HAVE_POSTGRES", "#define HAVE_POSTGRES")
    d = CACHE + "/conf-" + _h(txt)
    os.makedirs(d, exist_ok=True)
    p = d + "/geodiff_config.hpp"
    if not os.path.exists(p):
        _atomic_write(p, txt.encode())
    return d

def _atomic_write(p, b):
    fd, t = tempfile.mkstemp(dir=os.path.dirname(p))
    with os.fdopen(fd, "wb") as f:
        f.write(b)
    os.replace(t, p)

def _compile(src, flavor, hdr_hash, extra=()):
    cxx, cfl, _ = FLAVORS[flavor]
    std = "-std=gnu++11" if src.startswith(REPO) else "-std=gnu++14"
    static = [] if flavor == "so" else ["-DGEODIFF_STATIC"]
    conf = _config_dir()
    flags = [cxx, std, *cfl.split(), *DEFS, *static, *extra, "-w", "-I" + NATIVE, "-I" + conf, "-I" + SRC, "-I" + SRC + "/3rdparty", "-I" + SRC + "/drivers", "-I" + PG]
    key = _h(_read(src), hdr_hash, " ".join(flags), src)
    obj = f"{CACHE}/obj/{os.path.basename(src)}-{flavor}-{key}.o"
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        fd, t = tempfile.mkstemp(dir=os.path.dirname(obj), suffix=".o")
        os.close(fd)
        r = subprocess.run(flags + ["-c", src, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            if os.path.exists(t):
                os.unlink(t)
            raise BuildError(f"compiling {src}: {r.stdout.decode(errors='replace')[-3000:]}")
        os.replace(t, obj)
    else:
        os.utime(obj)
    return obj

def _prune():
    """keep the cache small: drop objects and programs unused for a while"""
    now = time.time()
    for d in (CACHE + "/obj", CACHE + "/bin"):
        if os.path.isdir(d):
            for e in os.scandir(d):
                try:
                    if now - e.stat().st_mtime > 2 * 3600:
                        os.unlink(e.path)
                except OSError:
                    pass

def build(name, flavor, natives, libs=("-lsqlite3",), pq="real", with_lib=True, extra=(), link_extra=()):
    """returns the path of program `name` built in `flavor` from the library sources and native files"""
    os.makedirs(CACHE, exist_ok=True)
    with open(CACHE + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hh = _h(*[p + "\0" + _read(p).decode("latin1") for p in headers()])
        srcs = (lib_sources() if with_lib else []) + [n if n.startswith("/") else NATIVE + "/" + n for n in natives]
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda s: _compile(s, flavor, hh, extra), srcs))
        cxx, cfl, lfl = FLAVORS[flavor]
        link = [cxx, *cfl.split(), *lfl.split(), *link_extra]
        tail = list(libs) + (["-lpq"] if pq == "real" else []) + ["-lpthread", "-ldl", "-lm"]
        out = f"{CACHE}/bin/{name}-{flavor}-{_h(*objs, ' '.join(link + tail))}"
        if flavor == "so":
            out += ".so"
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            fd, t = tempfile.mkstemp(dir=os.path.dirname(out))
            os.close(fd)
            r = subprocess.run(link + ["-o", t] + objs + tail, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                os.unlink(t)
                raise BuildError(f"linking {name}: {r.stdout.decode(errors='replace')[-3000:]}")
            os.chmod(t, 0o755)
            os.replace(t, out)
            _prune()
        else:
            os.utime(out)
        return out

def gdrun(flavor="asan"):
    return build("gdrun", flavor, ["gdrun.cpp", "gpkg_shim.cpp"], link_extra=("-Wl,--wrap=fread",))

def pgrun(flavor="asan"):
    """the driver process with the libpq stand-in instead of libpq"""
    return build("pgrun", flavor, ["gdrun.cpp", "gpkg_shim.cpp", "pgemu.cpp"], pq="emulated", link_extra=("-Wl,--wrap=fread",))

def newrun(flavor="asan"):
    """the driver process (PostgreSQL emulated) with an operator new that fails on demand"""
    return build("newrun", flavor, ["gdrun.cpp", "gpkg_shim.cpp", "pgemu.cpp", "newfail.cpp"], pq="emulated", link_extra=("-Wl,--wrap=fread",))

def threads(flavor):
    return build("threads", flavor, ["threads.cpp", "gpkg_shim.cpp"])

def pylib():
    """the shared library that the Python module loads"""
    return build("libgeodiff", "so", ["gpkg_shim.cpp"])

def pyspy():
    return build("libspy", "so", ["spy.cpp"], with_lib=False, pq="none")

def cli(flavor="asan"):
    """the command line tool with the library"""
    return build("geodiffinfo", flavor, [SRC + "/geodiffinfo.cpp", "gpkg_shim.cpp"])

def clispy(flavor="asan"):
    return build("geodiffinfo-spy", flavor, [SRC + "/geodiffinfo.cpp", "spy.cpp"], with_lib=False, pq="none")

LOCALES = [("de_DE", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("tr_TR", "UTF-8"), ("fa_IR", "UTF-8"), ("fr_FR", "ISO-8859-1"), ("zh_CN", "GB18030"), ("zh_TW", "BIG5")]

def locales():
    """directory of compiled locales (for LOCPATH) and their names; those that cannot be made here are left out"""
    d = CACHE + "/locale"
    os.makedirs(d, exist_ok=True)
    def one(x):
        n = ".".join(x)
        if not os.path.isdir(f"{d}/{n}"):
            t = tempfile.mkdtemp(dir=d)
            try:
                subprocess.run(["localedef", "--no-archive", "-c", "-i", x[0], "-f", x[1], t + "/" + n], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                if os.path.isfile(t + "/" + n + "/LC_NUMERIC"):
                    os.rename(t + "/" + n, f"{d}/{n}")
            except (OSError, subprocess.TimeoutExpired):
                pass
            shutil.rmtree(t, True)
        return n if os.path.isdir(f"{d}/{n}") else None
    with open(CACHE + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(8) as ex:
            return d, [n for n in ex.map(one, LOCALES) if n]

if __name__ == "__main__":
    t = time.time()
    print(gdrun(), time.time() - t)
