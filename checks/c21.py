import json, os, re, shutil, subprocess, time
import vf, build, dbgen, merge
from c02 import read


class Sub:
    """the part of a context that the generators use, for another directory"""
    def __init__(self, ctx, d):
        self.rng, self.dir = ctx.rng, d
        os.makedirs(d, exist_ok=True)

    def path(self, n):
        return self.dir + "/" + n


def enc(a):
    return "N" if a is None else "h" + a.encode("utf-8", "surrogateescape").hex()


def jobs(rng, t, d, n):
    """calls of one thread, in its own directory d (relative)"""
    p = lambda x: f"{d}/{x}"
    out = [("createChangeset", p("base.db"), p("mine.db"), p("m2")), ("createChangeset", p("base.db"), p("theirs.db"), p("t2"))]
    k = 0
    for _ in range(n):
        k += 1
        o = p(f"o{k}")
        w = rng.choice(["create", "createEx", "invert", "rebased", "rebasedEx", "apply", "rebase", "rebase", "rebaseEx", "rebaseEx", "list", "summary", "dump", "copy", "missing", "count", "applybad", "shared"])
        if w == "create":
            a, b = rng.sample(["base.db", "mine.db", "theirs.db"], 2)
            out.append(("createChangeset", p(a), p(b), o))
        elif w == "createEx":
            out.append(("createChangesetEx", "sqlite", "", p("mine.db"), p("theirs.db"), o))
        elif w == "invert":
            out.append(("invertChangeset", p(rng.choice(["m2", "t2"])), o))
        elif w == "rebased":
            out.append(("createRebasedChangeset", p("base.db"), p("mine.db"), p("t2"), o, o + ".conflicts"))
        elif w == "rebasedEx":
            out.append(("createRebasedChangesetEx", "sqlite", "", p("base.db"), p("m2"), p("t2"), o, o + ".conflicts"))
        elif w == "apply":
            out.append(("applyChangeset", p(f"copy{k % 4}.db"), p(rng.choice(["m2", "t2"]))))
        elif w == "rebase":
            out.append(("rebase", p("base.db"), p("theirs.db"), p(f"mine{k % 4}.db"), o + ".conflicts"))
        elif w == "rebaseEx":
            out.append(("rebaseEx", "sqlite", None, p("base.db"), p(f"mine{k % 4}.db"), p("t2"), o + ".conflicts"))
        elif w == "list":
            out.append(("listChanges", p("m2"), o))
        elif w == "summary":
            out.append(("listChangesSummary", p("t2"), o))
        elif w == "dump":
            out.append(("dumpData", "sqlite", "", p("mine.db"), o))
        elif w == "copy":
            out.append(("makeCopy", "sqlite", "", p("base.db"), "sqlite", "", o))
        elif w == "missing":
            out.append(("createChangeset", p("nothing.db"), p("mine.db"), o))
        elif w == "count":
            out.append((rng.choice(["changesCount", "hasChanges"]), p(rng.choice(["m2", "t2", "nothing"]))))
        elif w == "applybad":
            out.append(("applyChangeset", p("theirs_w.db"), p("t2")))
        elif w == "shared":
            out.append(rng.choice([("createChangeset", "shared/base.db", "shared/mine.db", o), ("listChanges", "shared/s2", o), ("invertChangeset", "shared/s2", o), ("dumpData", "sqlite", "", "shared/base.db", o), ("applyChangeset", p(f"sh{k % 3}.db"), "shared/s2")]))
    return out


def prepare(ctx, root, n, serial_gd):
    """input files of n threads"""
    rng = ctx.rng
    tabs = []
    for t in range(n):
        s = Sub(ctx, f"{root}/t{t}")
        b, th, mi, tables, gpkg = merge.gen_triple(rng, s)
        for k in range(4):
            shutil.copyfile(b, s.path(f"copy{k}.db"))
            shutil.copyfile(mi, s.path(f"mine{k}.db"))
        shutil.copyfile(th, s.path("theirs_w.db"))
        tabs.append(tables)
    s = Sub(ctx, f"{root}/shared")
    b, th, mi, tables, gpkg = merge.gen_triple(rng, s)
    ctx.ok("createChangeset", b, mi, s.path("s2"))
    for t in range(n):
        for k in range(3):
            shutil.copyfile(b, f"{root}/t{t}/sh{k}.db")
    return tabs


def state(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            b = read(p)
            if b.startswith(b"SQLite format 3"):
                b = dbgen.full_dump(p)
                if "gpkg_contents" in b:   # the time of the copy
                    b["gpkg_contents"] = re.sub(r"'20\d\d-\d\d-\d\dT[\d:.]+Z'", "NOW", str(b["gpkg_contents"]))
            out[os.path.relpath(p, root)] = b
    return out


def launch(exe, root, job, mode, seed, tmp):
    env = dict(os.environ, TMPDIR=tmp, TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
    env.pop("GEODIFF_LOGGER_LEVEL", None)
    cmd = [exe, root, job, mode, str(seed)]
    if "-tsan-" in exe:
        cmd = ["setarch", "-R"] + cmd
    return subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)


def collect(ctx, p, what):
    try:
        out, err = p.communicate(timeout=240)
    except subprocess.TimeoutExpired:
        p.kill()
        ctx.fail("hang", f"{what}: no end after 240 s")
    err = err.decode("utf-8", "replace")
    if "WARNING: ThreadSanitizer" in err:
        i = err.index("WARNING: ThreadSanitizer")
        fr = [f for f in re.findall(r"#\d+ ([^\n]*?) (?:/|\()", err[i:i + 6000]) if "std::" not in f]
        ctx.fail("data-race", f"{what}: {err[i:i + 1500]}")
    if p.returncode:
        ctx.fail("crash", f"{what}: exit status {p.returncode}: {err[-1200:]}")
    return json.loads(out)


def logs(r):
    # messages may name temporary files
    def clean(m):
        return re.sub(rb"geodiff_?[A-Za-z_]*[A-Za-z0-9]{6,}", b"TMP", bytes.fromhex(m))
    return [[[c[0], [[l[0], clean(l[1])] for l in c[1] if not bytes.fromhex(l[1]).startswith(b"SQLITE3:")]] for c in t] for t in r["r"]]


def compare(ctx, calls, ser, par, fs, fp, what):
    a, b = logs(ser), logs(par)
    for t, (x, y) in enumerate(zip(a, b)):
        for i, (u, v) in enumerate(zip(x, y)):
            if u[0] != v[0]:
                ctx.fail("return-value", f"{what}: {calls[t][i]} returned {v[0]}, alone {u[0]}: {v[1][-2:]}")
            if u[1] != v[1]:
                ctx.fail("messages", f"{what}: {calls[t][i]} logged {str(v[1])[:300]}, alone {str(u[1])[:300]}")
    if set(fs) != set(fp):
        ctx.fail("files", f"{what}: files {sorted(set(fs) ^ set(fp))[:6]} differ")
    for k in fs:
        if fs[k] != fp[k]:
            ctx.fail("output", f"{what}: {k} differs from what the call gives alone")


def case(ctx, i):
    rng = ctx.rng
    proc = i % 4 == 3
    n = rng.choice([2, 3, 4, 6])
    src = ctx.path("src")
    prepare(ctx, src, n, None)
    calls = [jobs(rng, t, f"t{t}", rng.choice([6, 10, 16])) for t in range(n)]
    tmp = ctx.path("tmp") + rng.choice(["", "/"])
    os.makedirs(tmp)
    job = ctx.path("job")
    with open(job, "w") as f:
        for t, cs in enumerate(calls):
            for c in cs:
                f.write(f"{t} {c[0]} " + " ".join(map(enc, c[1:])) + "\n")
    exe = build.threads("asan") if proc else EXE
    shutil.copytree(src, ctx.path("ser"))
    p = launch(build.threads("asan"), ctx.path("ser"), job, "serial", 0, tmp)
    p.stdin.write(b"\n"); p.stdin.flush()
    ser = collect(ctx, p, "one after the other")
    fs = state(ctx.path("ser"))
    rounds = 2 if vf.TIER == "quick" else 6
    for k in range(rounds):
        if proc:
            # several processes (each with its threads) share the directory for temporary files
            m = rng.choice([2, 3])
            ps = []
            for q in range(m):
                shutil.copytree(src, ctx.path(f"par{q}"))
                ps.append(launch(exe, ctx.path(f"par{q}"), job, rng.choice(["parallel", "serial"]), i * 10 + k * 3 + (q if rng.random() < 0.5 else 0), tmp))
            time.sleep(0.05)
            for p in ps:
                p.stdin.write(b"\n"); p.stdin.flush()
            for q, p in enumerate(ps):
                r = collect(ctx, p, f"process {q} of {m}")
                compare(ctx, calls, ser, r, fs, state(ctx.path(f"par{q}")), f"{m} processes")
                shutil.rmtree(ctx.path(f"par{q}"))
            ctx.count("process_rounds")
            ctx.count("processes", m)
            ctx.sig("proc", i, k, m)
        else:
            shutil.copytree(src, ctx.path("par"))
            p = launch(exe, ctx.path("par"), job, "parallel", i * 10 + k, tmp)
            p.stdin.write(b"\n"); p.stdin.flush()
            r = collect(ctx, p, f"{n} threads")
            compare(ctx, calls, ser, r, fs, state(ctx.path("par")), f"{n} threads")
            shutil.rmtree(ctx.path("par"))
            ctx.count("thread_rounds")
            if r["most"] > 1:
                ctx.count("overlapping_rounds")
                ctx.count("most_at_once:%d" % r["most"])
                ctx.sig("thr", i, k, r["most"])
        if os.listdir(tmp):
            ctx.fail("temporary-left", f"left in the temporary directory: {os.listdir(tmp)[:5]}")
    for t in calls:
        for c in t:
            ctx.count("call:" + c[0])
    ctx.sample({"threads": n, "calls": [c[0] for c in calls[0]]})


EXE = None


def main(only=None):
    global EXE
    c = vf.Check("C21", rule="lists of calls run by several threads (ThreadSanitizer) and by several processes with one temporary directory; return values, messages and all files equal those of a run one after the other. Non-trivial: a round in which calls overlapped",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "races inside the system SQLite library are not visible", "the logger is set up before the threads start"])
    EXE = build.threads("tsan")
    build.threads("asan")
    n = 48 if vf.TIER == "quick" else 600
    c.run_cases(case, only or range(n), workers=4)
    return c.finish()
