import json, os, re, shutil, subprocess, select, time
import vf, build, c21
from c02 import read

FN = {"createChangeset": ("create_changeset", 3), "invertChangeset": ("invert_changeset", 2), "createRebasedChangeset": ("create_rebased_changeset", 5), "rebase": ("rebase", 4), "applyChangeset": ("apply_changeset", 2),
      "listChanges": ("list_changes", 2), "listChangesSummary": ("list_changes_summary", 2), "hasChanges": ("has_changes", 1), "changesCount": ("changes_count", 1)}
CODES = [0, 1, 2, 3, 4, 5, 17, 255, 256, 2147483647, -1, -2, -2147483648]


class Py:
    def __init__(self, ctx, pkg=build.REPO, cwd=None, env=None):
        e = dict(os.environ, TMPDIR=ctx.dir + "/", **(env or {}))
        e.pop("GEODIFF_LOGGER_LEVEL", None)
        self.err = open(ctx.path("py.err"), "wb")
        self.ctx = ctx
        self.p = subprocess.Popen(["python3", "-B", "-X", "faulthandler", build.VERIF + "/lib/pyworker.py", pkg], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=cwd or ctx.dir, env=e)

    def __call__(self, op, **q):
        try:
            self.p.stdin.write((json.dumps(dict(q, op=op)) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        if not select.select([self.p.stdout], [], [], 90)[0]:
            self.close()
            self.ctx.fail("hang", f"no answer to {op} {q}")
        l = self.p.stdout.readline()
        if not l:
            st = self.p.wait()
            self.close()
            err = read(self.ctx.path("py.err")).decode("utf-8", "replace")
            if "Segmentation" not in err and st >= 0:
                raise vf.HarnessError(f"python worker ended ({st}): {err[-1500:]}")
            self.ctx.fail("crash", f"the Python process died ({st}) in {op} {str(q)[:300]}: {err[-800:]}")
        return json.loads(l)

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()


def word(rng):
    """text that has to arrive as it is: odd characters, forms that Unicode normalisation changes, parts that path clean-up would change"""
    w = ["", "a", "base.gpkg", "/data/x y.gpkg", "Ünï/表.db", "quo'te\"s", "%s%n", "🙂", "a\nb", "x" * rng.choice([100, 4096, 70000]), "-", "\\", "\u00a0nbsp", "\x7f\x01",
         "za\u0301pis", "caf\u00e9", "\u212b\ufb01", "./a//b/../", "~/$HOME/", "  lead", "Mixed.GPKG", "file:x?mode=ro#", "a\\b/"]
    return rng.choice(w) + str(rng.randrange(1000)) + rng.choice(["", "", "", "/", " ", "\t", "\n", "e\u0301"])


def spy_case(ctx):
    """what reaches the library and what its answers become"""
    rng = ctx.rng
    ver = VERSION
    py = Py(ctx, env={"SPY_VERSION": ver, "SPY_LOG": ctx.path("log")})
    try:
        r = py("facts")["val"]
        if r["levels"] != [1, 2, 3, 4]:
            ctx.fail("level-constants", f"log level constants are {r['levels']}")
        missing = [f for f in [x[0] for x in FN.values()] + ["set_logger_callback", "set_maximum_logger_level", "version"] if f not in r["names"]]
        if missing:
            ctx.fail("missing-function", f"the module has no {missing}")
        lib = build.pyspy()
        r = py("new", id="g", args=[lib])
        if "exc" in r:
            ctx.fail("load", f"loading the library failed: {r}")
        if not read(ctx.path("log")).startswith(b"init\n"):
            ctx.fail("not-initialised", "the library was not initialised")
        py("logger", id="g", tag="first")
        tag, n = "first", 1
        todo = [(c, k) for c in FN for k in CODES]
        rng.shuffle(todo)
        for c, code in todo:
            fn, k = FN[c]
            args = [word(rng) for _ in range(k)]
            lvl, msg = rng.randrange(1, 5), rng.choice(["plain", "Ünï", "50% off %s", "multi\nline", "x" * 5000])
            emit = rng.random() < 0.3
            py("env", env={"SPY_RC": str(code), "SPY_EMIT": f"{lvl}:{msg}" if emit else ""})
            if rng.random() < 0.1:
                # another object for the same library, or another callback
                w = rng.choice(["new", "logger", "level"])
                if w == "new":
                    py("new", id="g2", args=[lib])
                    py("del", id="g")
                    py("env", env={"SPY_EMIT": ""})
                    py("new", id="g", args=[lib])
                    py("del", id="g2")
                    py("env", env={"SPY_EMIT": f"{lvl}:{msg}" if emit else ""})
                    ctx.count("objects_deleted")
                elif w == "logger":
                    n += 1
                    tag = f"t{n}"
                    py("env", env={"SPY_EMIT": ""})
                    py("logger", id="g", tag=tag)
                    py("env", env={"SPY_EMIT": f"{lvl}:{msg}" if emit else ""})
                    ctx.count("callbacks_replaced")
                else:
                    l = rng.choice([0, 1, 2, 3, 4])
                    os.truncate(ctx.path("log"), 0)
                    r = py("level", id="g", level=l)
                    if "exc" in r or read(ctx.path("log")) != b"setMaximumLoggerLevel h%s\n" % str(l).encode().hex().encode():
                        ctx.fail("level", f"set_maximum_logger_level({l}) gave {r} and called {read(ctx.path('log'))}")
            os.truncate(ctx.path("log"), 0)
            r = py("call", id="g", fn=fn, args=args)
            got = read(ctx.path("log"))
            want = (c + "".join(" h" + a.encode("utf-8").hex() for a in args)).encode()
            ctx.count("spied_calls")
            if [same(l) for l in got.split(b"\n")[:-1]] != [same(want)]:
                ctx.fail("arguments", f"{fn}{tuple(a[:40] for a in args)} called {show(got)}")
            if c in ("hasChanges", "changesCount"):
                exp = ["GeoDiffLibError"] if code < 0 else None
                val = (code == 1 if c == "hasChanges" else code)
            else:
                exp = None if code == 0 else {1: ["GeoDiffLibError"], 2: ["GeoDiffLibConflictError", "GeoDiffLibError"], 3: ["GeoDiffLibUnsupportedChangeError", "GeoDiffLibError"]}.get(code, ["GeoDiffLibVersionError", "GeoDiffLibError"])
                val = None
            if rng.random() < 0.4:
                # names that are not text: passed as os.fsencode() has them, or refused
                odd = [w + rng.choice(["\udcff", "\udce9.gpkg", "\ud800"]) if i == 0 or rng.random() < 0.5 else w for i, w in enumerate(word(rng) for _ in range(k))]
                rng.shuffle(odd)
                py("env", env={"SPY_EMIT": "", "SPY_RC": "0"})
                os.truncate(ctx.path("log"), 0)
                r2 = py("call", id="g", fn=fn, args=odd)
                got = read(ctx.path("log"))
                enc = [[a.encode("utf-8", e) for a in odd] for e in ("surrogateescape", "surrogatepass") if encodes(odd, e)]
                want = [same((c + "".join(" h" + a.hex() for a in w)).encode()) for w in enc]
                calls = [same(l) for l in got.split(b"\n")[:-1]]
                if not ("exc" in r2 and not calls) and not (len(calls) == 1 and calls[0] in want):
                    ctx.fail("arguments-not-text", f"{fn}({[a[:40] for a in odd]!a}) gave {str(r2)[:200]!a} and called {show(got)}")
                ctx.count("calls_not_text")
            if exp is None:
                if "exc" in r:
                    ctx.fail("exception", f"{fn}: code {code} raised {r['exc'][0]}")
                if c in ("hasChanges", "changesCount") and (r["val"] != val or (c == "hasChanges" and r["type"] != "bool")):
                    ctx.fail("value", f"{fn}: code {code} gave {r['val']}")
            else:
                if "exc" not in r:
                    ctx.fail("no-exception", f"{fn}: code {code} raised nothing")
                if r["exc"][:len(exp)] != exp or exp[0] not in r["public"]:
                    ctx.fail("exception-type", f"{fn}: code {code} raised {r['exc'][:3]}, expected {exp}")
            wl = [[tag, lvl, msg.encode().hex(), 50]] if emit else []
            if r["log"] != wl:
                ctx.fail("callback", f"{fn}: the callback {tag} got {r['log']}, expected {str(wl)[:200]}")
            ctx.count("messages", len(wl))
            ctx.sig("spy", c, code, emit)
    finally:
        py.close()


def encodes(words, errors):
    try:
        for w in words:
            w.encode("utf-8", errors)
        return True
    except UnicodeEncodeError:
        return False


def same(line):
    """the recorded call (bytes, without a line end); calls that mean the same compare equal"""
    w = line.split(b" ")
    for a, b in ((b"createChangesetEx", b"createChangeset"), (b"applyChangesetEx", b"applyChangeset")):
        if w[0] == a and w[1] == b"h" + b"sqlite".hex().encode() and w[2] in (b"N", b"h"):
            w = [b] + w[3:]
    return w


def show(b):
    out = []
    for l in b.decode().split("\n")[:-1]:
        p = l.split(" ")
        out.append((p[0],) + tuple(bytes.fromhex(a[1:])[:40] if a != "N" else None for a in p[1:]))
    return out


def loader_case(ctx):
    """which library is loaded, and the version check"""
    rng = ctx.rng
    pkg = ctx.path("pkg")
    shutil.copytree(build.REPO + "/pygeodiff", pkg + "/pygeodiff", ignore=shutil.ignore_patterns("tests", "__pycache__"))
    py = Py(ctx, pkg=pkg, env={"SPY_VERSION": VERSION})
    try:
        f = py("facts")["val"]
        if f["system"] is None:
            r = py("new", id="n", args=[])
            if "exc" not in r or r["exc"][0] != "GeoDiffLibVersionError":
                ctx.fail("missing-library", f"no library at all gave {r}")
        shutil.copyfile(build.pylib(), pkg + f"/pygeodiff/libpygeodiff-{f['version']}-python.so")
        r = py("new", id="g", args=rng.choice([[], [None]]))
        if "exc" in r:
            ctx.fail("bundled-library", f"the library beside the module was not loaded: {r}")
        r = py("call", id="g", fn="version", args=[])
        if r.get("val") != f["version"]:
            ctx.fail("version", f"version() gives {r}, the module is {f['version']}")
        for v in rng.sample(["0.0.1", f["version"] + ".1", f["version"][:-1], "9.9.9", ""], 3):
            py("env", env={"SPY_VERSION": v})
            r = py("new", id="s", args=[build.pyspy()])
            if "exc" not in r or r["exc"][0] != "GeoDiffLibVersionError":
                ctx.fail("version-check", f"a library of version {v!r} gave {r}")
            if v not in r["msg"] or f["version"] not in r["msg"]:
                ctx.fail("version-message", f"the error does not name the versions: {r['msg']}")
            ctx.sig("version", v)
        r = py("new", id="x", args=[ctx.path("nothing.so")])
        if "exc" not in r:
            ctx.fail("missing-library", "a library file that does not exist was loaded")
        ctx.count("loader_cases")
    finally:
        py.close()


def real_case(ctx):
    """the same calls through Python and directly"""
    rng = ctx.rng
    src = ctx.path("src")
    c21.prepare(ctx, src, 1, None)
    d = rng.choice(["t0", "t0", "Ünï 表", "with space", "quo'te\"", "100%s", "naïve-🙂"])
    if d != "t0":
        os.rename(src + "/t0", src + "/" + d)
    calls = [c for c in c21.jobs(rng, 0, d, rng.choice([20, 40])) if c[0] in FN]
    for _ in range(6):
        w = rng.randrange(6)
        calls.insert(rng.randrange(2, len(calls) + 1), [("applyChangeset", d + "/theirs_w.db", d + "/m2"), ("listChanges", d + "/base.db", d + "/oj"), ("createRebasedChangeset", d + "/base.db", d + "/nothing", d + "/t2", d + "/or", d + "/oc"),
                                                          ("changesCount", d + "/base.db"), ("hasChanges", d + "/m2"), ("invertChangeset", d + "/m2", d + "/no/such/dir")][w])
    A, B = ctx.path("A"), ctx.path("B")
    shutil.copytree(src, A)
    shutil.copytree(src, B)
    level = rng.choice([None, 0, 1, 2, 3, 4])
    cb = rng.random() < 0.8
    py = Py(ctx, cwd=B)
    try:
        r = py("new", id="g", args=[build.pylib()])
        if "exc" in r:
            ctx.fail("load", f"loading the library failed: {r}")
        if cb:
            py("logger", id="g", tag="cb")
        ctx.gd.cmd("level", str(1 if level is None else level))
        if level is not None:
            py("level", id="g", level=level)
        ctx.gd.cmd("chdir", A)
        for c in calls:
            fn = FN[c[0]][0]
            a = ctx.call(c[0], *c[1:])
            b = py("call", id="g", fn=fn, args=list(c[1:]))
            if c[0] in ("hasChanges", "changesCount"):
                good = ("exc" in b and b["exc"][0] == "GeoDiffLibError") if a.rc < 0 else b.get("val") == (a.rc == 1 if c[0] == "hasChanges" else a.rc)
            elif a.rc == 0:
                good = "exc" not in b
            else:
                good = "exc" in b and b["exc"][0] == {1: "GeoDiffLibError", 2: "GeoDiffLibConflictError", 3: "GeoDiffLibUnsupportedChangeError"}.get(a.rc, "GeoDiffLibVersionError")
            if not good:
                ctx.fail("result", f"{c}: the library returns {a.rc}, Python gave {str(b)[:400]}")
            if cb:
                la = [(l, clean(m)) for l, m in a.log if not m.startswith("SQLITE3:") and l <= (1 if level is None else level)]
                lb = [(l, clean(bytes.fromhex(m)[:4000].decode("utf-8", "replace"))) for _, l, m, _ in b["log"]]
                lb = [x for x in lb if not x[1].startswith("SQLITE3:")]
                if sum(len(x[1]) for x in la) > 150000:      # the driver stops recording
                    lb = lb[:len(la)]
                if la != lb:
                    ctx.fail("messages", f"{c} at level {level}: the library logs {str(la)[:300]}, the Python callback got {str(lb)[:300]}")
                ctx.count("messages", len(lb))
            ctx.count("python_calls")
            ctx.count("errors" if "exc" in b else "successes")
            ctx.sig("real", c[0], a.rc, level, d)
    finally:
        py.close()
        ctx.gd.stop()
    fa, fb = c21.state(A), c21.state(B)
    if set(fa) != set(fb):
        ctx.fail("files", f"files {sorted(set(fa) ^ set(fb))[:5]} differ")
    for k in fa:
        if fa[k] != fb[k]:
            ctx.fail("output", f"{k} differs from what the library gives: {[c for c in calls if k in c]}")
    ctx.count("files_compared", len(fa))


def clean(m):
    return re.sub(r"geodiff_?[A-Za-z_]*[A-Za-z0-9]{6,}", "TMP", m)


def case(ctx, i):
    if i % 8 == 0:
        spy_case(ctx)
    elif i % 8 == 1:
        loader_case(ctx)
    else:
        real_case(ctx)


VERSION = None


def main(only=None):
    global VERSION
    c = vf.Check("C23", rule="each call of the Python module is observed at the library boundary (recording stand-in: function, argument bytes, every return code) and compared, with the real library, to the same call made from C (result, messages, all files). Non-trivial: function x return code x log level observed",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "strings without NUL bytes that can be encoded as UTF-8"])
    m = re.search(r"__version__\s*=\s*['\"]([^'\"]+)", open(build.REPO + "/pygeodiff/__about__.py").read())
    VERSION = m.group(1)
    build.pylib(), build.pyspy()
    n = 200 if vf.TIER == "quick" else 1600
    c.run_cases(case, only or range(n))
    return c.finish()
