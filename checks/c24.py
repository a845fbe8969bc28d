import os, re, shutil, subprocess
import vf, build, c21, c23
from c02 import read

MODES = {"createChangeset": 3, "createRebasedChangeset": 5, "applyChangeset": 2, "listChanges": 2, "listChangesSummary": 2, "makeCopy": 6, "createChangesetEx": 5, "applyChangesetEx": 4, "rebaseEx": 6, "dumpData": 4}


def run(ctx, exe, args, cwd, level=None, env=None, key=None):
    e = dict(os.environ, TMPDIR=ctx.dir + "/", ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", **(env or {}))
    e.pop("GEODIFF_LOGGER_LEVEL", None)
    if level is not None:
        e["GEODIFF_LOGGER_LEVEL"] = str(level)
    try:
        p = subprocess.run([exe] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        ctx.fail("hang", f"{args[:3]}: no end after 120 s")
    ctx.count("runs")
    if p.returncode < 0 or b"Sanitizer" in p.stderr or b"runtime error" in p.stderr or p.returncode == 99:
        ctx.fail("crash", f"{[a[:80] for a in args]}: exit status {p.returncode}: {p.stderr[-1500:].decode('utf-8', 'replace')}")
    return p


def word(rng):
    if rng.random() < 0.15:
        return rng.choice(["", "", " ", "\t"])
    w = c23.word(rng)
    if rng.random() < 0.15:
        w = os.fsdecode(w.encode() + b"\xff\xc3")
    return w[:60000]


def spy_case(ctx):
    rng = ctx.rng
    exe = build.clispy()
    for mode, k in rng.sample(sorted(MODES.items()), len(MODES)):
        for rc in rng.sample([0, 1, 2, 3], 2):
            args = [word(rng) for _ in range(k)]
            if os.path.exists(ctx.path("log")):
                os.truncate(ctx.path("log"), 0)
            p = run(ctx, exe, [mode] + args, ctx.dir, env={"SPY_LOG": ctx.path("log"), "SPY_RC": str(rc), "SPY_VERSION": "1.2"})
            calls = [c for c in c23.show(read(ctx.path("log"))) if c[0] not in ("init", "setMaximumLoggerLevel")]
            raw = [l for l in read(ctx.path("log")).decode().split("\n")[:-1] if l.split(" ")[0] not in ("init", "setMaximumLoggerLevel")]
            want = mode + "".join(" h" + os.fsencode(a).hex() for a in args)
            if [c23.same(l.encode()) for l in raw] != [c23.same(want.encode())]:
                ctx.fail("arguments", f"{mode} {[a[:30] for a in args]} called {calls}")
            if (p.returncode == 0) != (rc == 0):
                ctx.fail("exit-status", f"{mode}: the library returned {rc}, the exit status is {p.returncode}")
            ctx.sig("spy", mode, rc)


def few_case(ctx):
    """wrong commands and missing arguments"""
    rng = ctx.rng
    src = ctx.path("src")
    c21.prepare(ctx, src, 1, None)
    d = src + "/t0"
    ctx.ok("createChangeset", d + "/base.db", d + "/mine.db", d + "/m2")
    before = c21.state(src)
    exe = build.cli()
    for mode, k in list(MODES.items()):
        n = rng.randrange(0, k)
        args = [rng.choice(["t0/base.db", "t0/mine.db", "t0/m2", "t0/out"]) for _ in range(n)]
        if n and rng.random() < 0.5:      # the beginning of a good call
            args = {"createChangeset": ["t0/base.db", "t0/mine.db"], "createRebasedChangeset": ["t0/base.db", "t0/mine.db", "t0/m2", "t0/out"], "applyChangeset": ["t0/base.db"], "listChanges": ["t0/m2"], "listChangesSummary": ["t0/m2"],
                    "makeCopy": ["sqlite", "", "t0/base.db", "sqlite", ""], "createChangesetEx": ["sqlite", "", "t0/base.db", "t0/mine.db"], "applyChangesetEx": ["sqlite", "", "t0/base.db"], "rebaseEx": ["sqlite", "", "t0/base.db", "t0/mine.db", "t0/m2"],
                    "dumpData": ["sqlite", "", "t0/base.db"]}[mode][:n]
        p = run(ctx, exe, [mode] + args, src)
        if p.returncode == 0:
            ctx.fail("missing-arguments-accepted", f"{mode} {args}: exit status 0")
        if not p.stdout + p.stderr:
            ctx.fail("silent", f"{mode} {args}: no message")
        ctx.sig("few", mode, n)
    for args in [[], [""], ["nothing"], ["createchangeset", "t0/base.db", "t0/mine.db", "t0/out"], ["createChangeset2", "t0/base.db", "t0/mine.db", "t0/out"], ["create", "t0/base.db", "t0/mine.db", "t0/out"], ["versionx"], ["-h"], ["APPLYCHANGESET", "t0/base.db", "t0/m2"], [" applyChangeset", "t0/base.db", "t0/m2"]]:
        p = run(ctx, exe, args, src)
        if p.returncode == 0:
            ctx.fail("wrong-command-accepted", f"{args}: exit status 0")
        if not p.stdout + p.stderr:
            ctx.fail("silent", f"{args}: no message")
        ctx.sig("wrong", args)
    if c21.state(src) != before:
        ctx.fail("altered", "a wrong command altered files")
    p = run(ctx, exe, ["version"], src)
    v = ctx.gd.cmd("version")
    if p.returncode != 0 or p.stdout.strip() != VERSION:
        ctx.fail("version", f"version: exit status {p.returncode}, {p.stdout!r}, the library says {v}")


def real_case(ctx):
    rng = ctx.rng
    src = ctx.path("src")
    c21.prepare(ctx, src, 1, None)
    d = rng.choice(["t0", "t0", "Ünï 表", "with space", "quo'te\"", "100%s"])
    if d != "t0":
        os.rename(src + "/t0", src + "/" + d)
    calls = [c for c in c21.jobs(rng, 0, d, rng.choice([15, 25])) if c[0] in MODES and None not in c]
    for _ in range(6):
        w = rng.randrange(7)
        calls.insert(rng.randrange(2, len(calls) + 1), [("applyChangeset", d + "/theirs_w.db", d + "/m2"), ("listChanges", d + "/base.db", d + "/oj"), ("createRebasedChangeset", d + "/base.db", d + "/nothing", d + "/t2", d + "/or", d + "/oc"),
                                                          ("applyChangesetEx", "sqlite", "", d + "/copy0.db", d + "/m2"), ("makeCopy", "sqlite", "", d + "/base.db", "nodriver", "", d + "/ox"), ("dumpData", "sqlite", "", d + "/nothing", d + "/od"),
                                                          ("rebaseEx", "sqlite", "", d + "/base.db", d + "/mine1.db", d + "/t2", d + "/oc2")][w])
    A, B = ctx.path("A"), ctx.path("B")
    shutil.copytree(src, A)
    shutil.copytree(src, B)
    exe = build.cli()
    ctx.gd.cmd("level", "4")
    ctx.gd.cmd("chdir", A)
    try:
        for c in calls:
            level = rng.choice([None, None, 0, 1, 2, 3, 4])
            a = ctx.call(*c)
            p = run(ctx, exe, list(c), B, level)
            if (p.returncode == 0) != (a.rc == 0) or (a.rc > 0 and p.returncode != a.rc):
                ctx.fail("exit-status", f"{c}: the library returns {a.rc}, the exit status is {p.returncode}: {p.stdout[-300:]}{p.stderr[-300:]}")
            out = (p.stdout + p.stderr).decode("utf-8", "replace")
            # what is shown follows the level: errors unless 0; debug messages only at 4
            lv = 2 if level is None else level
            for l, m in a.log:
                if m.startswith("SQLITE3:") or "geodiff_" in m or len(m) > 3000 or l == 0:
                    continue
                if l <= lv and l <= 2 and m not in out:
                    ctx.fail("message-lost", f"{c} at level {level}: the message ({l}) {m[:200]} is not shown: {out[:300]}")
                if l > lv and lv > 0 and f": {m}\n" in out:
                    ctx.fail("message-shown", f"{c} at level {level}: the message ({l}) {m[:200]} is shown")
                if l <= lv:
                    ctx.count("messages_shown")
            if level == 0 and out:
                ctx.fail("message-shown", f"{c} at level 0: {out[:300]}")
            ctx.sig("real", c[0], a.rc, level, d)
            ctx.count("errors" if a.rc else "successes")
    finally:
        ctx.gd.stop()
    fa, fb = c21.state(A), c21.state(B)
    if set(fa) != set(fb):
        ctx.fail("files", f"files {sorted(set(fa) ^ set(fb))[:5]} differ")
    for k in fa:
        if fa[k] != fb[k]:
            ctx.fail("output", f"{k} differs from what the library gives: {[c for c in calls if k in c]}")
    ctx.count("files_compared", len(fa))


def case(ctx, i):
    if i % 6 == 0:
        spy_case(ctx)
    elif i % 6 == 1:
        few_case(ctx)
    else:
        real_case(ctx)


VERSION = b""


def main(only=None):
    global VERSION
    c = vf.Check("C24", rule="each run of the command line tool is observed: with a recording stand-in for the library (call, argument bytes, exit status for every result code) and with the real library next to the same call made directly (exit status, messages per log level, all files). Non-trivial: command x result x log level observed",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "arguments after the documented ones are not looked at (the tool accepts them)"])
    m = re.search(r"return\s+\"([\d.]+)\"", open(build.SRC + "/geodiff.cpp").read())
    build.cli(), build.clispy()
    g = vf.Gd(build.gdrun(), c.scratch())
    VERSION = (g.cmd("version").get("version") or "").encode()
    g.stop()
    n = 96 if vf.TIER == "quick" else 1500
    c.run_cases(case, only or range(n))
    return c.finish()
