import os, re, shutil
import vf, dbgen
from c02 import read
from c13 import Op, ALLW
from c14 import RD
import c10, c15
from changeset import decode, encode, Entry, DELETE, INSERT

BAD = {"hasChanges": -1, "changesCount": -1}


def failed(fn, rc):
    return rc == -1 if fn in BAD else rc != 0


def plainmsg(m):
    m = re.sub(r"geodiff_\w*[A-Za-z0-9]{12}", "TMP", m)
    return m


def msgs(r):
    return [(l, plainmsg(m)) for l, m in r.log]


def own(r, level):
    """messages of a level that the library itself logged (not those passed on from SQLite)"""
    return [m for l, m in r.log if l == level and not m.startswith("SQLITE3:")]


def judge(ctx, fn, r, what):
    if any(l not in (1, 2, 3, 4) or m == "<null>" for l, m in r.log):
        ctx.fail("level", f"{fn}, {what}: message with level {[l for l, _ in r.log]}")
    if failed(fn, r.rc):
        if not [m for l, m in r.log if l == 1 and m.strip()]:
            ctx.fail("silent:" + fn, f"{fn}, {what}: returned {r.rc} and logged no error ({r.log[-3:]})")
        ctx.count("failures")
    else:
        if own(r, 1) and not what.startswith("fault"):       # a fault that was got over may be logged
            ctx.fail("error-on-success:" + fn, f"{fn}, {what}: returned {r.rc} and logged {own(r, 1)[:2]}")
        ctx.count("successes")
    ctx.sig(fn, what.split(":")[0], r.rc, [plainmsg(m)[:25] for l, m in r.log if l == 1][:3])


def operations(ctx):
    """calls that succeed and calls that fail in many ways: (op, what)"""
    rng = ctx.rng
    P = ctx.path
    ops = c15.all_ops(ctx)
    out = [(o, "plain") for o in ops]
    good = read(P("bm.diff")) or read(P("cr.diff"))
    try:
        bad = c10.mutate(rng, good, decode(good))[0]
    except Exception:
        bad = b"T\1\1"
    with open(P("bad.diff"), "wb") as f:
        f.write(bad)
    with open(P("text.db"), "wb") as f:
        f.write(b"not a database at all" * 100)
    with open(P("empty.bin"), "wb"):
        pass
    os.mkdir(P("adir"))
    c = dbgen.connect(P("other.db"))
    c.execute("CREATE TABLE other (id INTEGER PRIMARY KEY, v)")
    c.execute("INSERT INTO other VALUES (1, 2)")
    c.execute("CREATE TABLE child (id INTEGER PRIMARY KEY, v REFERENCES other (id))")
    c.execute("CREATE TRIGGER mine AFTER INSERT ON other BEGIN SELECT 1; END")
    c.close()
    with open(P("conflict.diff"), "wb") as f:
        f.write(encode([Entry("other", (1, 0), DELETE, [7, 7], None), Entry("other", (1, 0), INSERT, None, [1, 7]), Entry("other", (1, 0), INSERT, None, [2, 7])]))
    for o in ops:
        for n, a in enumerate(o.args):
            if a == "sqlite":
                vs = [None, "", "nosuchdriver", "SQLite", "sqlite "]
            elif a in o.outs:
                vs = [None, "", P("missing/out"), P("adir")]
            elif not a:
                continue
            else:
                vs = [None, "", P("missing"), P("bad.diff"), P("text.db"), P("empty.bin"), P("adir"), P("other.db")]
            for v in rng.sample(vs, 3):
                args = list(o.args)
                args[n] = v
                out.append((Op(o.fn, args, [x for x in o.outs if x != P("adir")], o.inplace), f"argument {n} {'null' if v is None else os.path.basename(v) or 'empty'}"))
    out.append((Op("applyChangeset", [P("a.db"), P("conflict.diff")], [], [(P("a.db"), P("other.db"))]), "conflicts"))
    out.append((Op("createRebasedChangeset", [P("other.db"), P("other.db"), P("bt.diff"), P("out.bin"), P("conf.json")], [P("out.bin"), P("conf.json")]), "refused"))
    return out


def case(ctx, i):
    rng = ctx.rng
    P = ctx.path
    gd = ctx.gd
    ops = operations(ctx)
    console = lambda: os.path.getsize(gd.errpath)
    start = console()
    for op, what in ops:
        op.reset()
        r = ctx.call(op.fn, *op.args)
        judge(ctx, op.fn, r, what)
        if rng.random() < 0.25:
            full = msgs(r)
            for n in rng.sample([0, 1, 2, 3], 2):
                gd.cmd("level", str(n))
                op.reset()
                r2 = ctx.call(op.fn, *op.args)
                gd.cmd("level", "4")
                want = [x for x in full if x[0] <= n]
                if msgs(r2) != want or r2.rc != r.rc:
                    ctx.fail("filter", f"{op.fn}, {what}: with maximum level {n} {len(r2.log)} messages {msgs(r2)[:3]}, expected {len(want)}: {want[:3]} (rc {r2.rc}, {r.rc})")
                ctx.count(f"level {n}")
        if rng.random() < 0.1:
            gd.cmd("cb", "null")
            op.reset()
            r2 = ctx.call(op.fn, *op.args)
            gd.cmd("cb", "set")
            if r2.log:
                ctx.fail("removed-callback", "messages came to a callback that was removed")
            if r2.rc != r.rc:
                ctx.fail("rc", f"{op.fn}, {what}: {r2.rc} without callback, {r.rc} with")
            ctx.count("no callback")
    # faults
    for op, _ in rng.sample([o for o in ops if o[1] == "plain"], 4):
        op.reset()
        gd.vfs(vf.M_FAIL, RD | ALLW, -1)
        n = sum(ctx.call(op.fn, *op.args).vfs["n"])
        gd.vfs()
        gd.cmd("mem", "-1", "0")
        op.reset()
        m = ctx.call(op.fn, *op.args).vfs["mem"]
        for _ in range(6):
            op.reset()
            kind = rng.choice(["vfs", "mem", "fread", "fsize"])
            if kind == "vfs" and n:
                gd.vfs(vf.M_FAIL, RD | ALLW, rng.randrange(n), int(rng.random() < 0.3), 0)
            elif kind == "mem" and m:
                gd.cmd("mem", str(rng.randrange(m)), "0")
            elif kind == "fread":
                gd.cmd("fread", str(rng.randrange(4)))
            else:
                gd.cmd("fsize", str(rng.choice([0, 1, 20, 300])))
            r = ctx.call(op.fn, *op.args)
            gd.vfs()
            gd.cmd("mem", "-1", "0")
            gd.cmd("fread", "-1")
            gd.cmd("fsize", "-1")
            judge(ctx, op.fn, r, "fault " + kind)
    if console() != start:
        ctx.fail("console", "output on the console although a callback is set: " + gd.report()[-300:])


PREFIX = {1: "Error: ", 2: "Warn: ", 3: "Info: ", 4: "Debug: "}


def default(ctx, i):
    """a process that sets no callback: what is printed, for each value of the environment variable"""
    rng = ctx.rng
    ops = operations(ctx)
    ops = [o for o in ops if o[1] == "plain"] + rng.sample([o for o in ops if o[1] != "plain"], 15)
    ref = []
    for op, what in ops:
        op.reset()
        ref.append(ctx.call(op.fn, *op.args))
    for lev, how in rng.sample([(1, None), (0, "0"), (1, "1"), (2, "2"), (3, "3"), (4, "4"), (1, "set"), (0, "set"), (3, "set"), (4, "set")], 3):
        d = ctx.path(f"own{lev}{how}")
        os.mkdir(d)
        env = {"GDRUN_DEFAULT_LOG": "1"}
        if how and how != "set":
            env["GEODIFF_LOGGER_LEVEL"] = how
        elif how == "set" and rng.random() < 0.5:
            env["GEODIFF_LOGGER_LEVEL"] = rng.choice("01234")
        g = vf.Gd(ctx.gd.exe, d, env=env)
        try:
            g.cmd("ping")
            if how == "set":
                g.cmd("level", str(lev))
            for (op, what), r in zip(ops, ref):
                a = os.path.getsize(g.errpath)
                op.reset()
                r2 = g.call(op.fn, *op.args)
                ctx.count("default_logger_calls")
                if any(len(m.encode("utf-8", "replace")) > 3900 for _, m in r.log):
                    continue      # recorded in part only
                with open(g.errpath, "rb") as f:
                    f.seek(a)
                    txt = f.read().decode("utf-8", "replace")
                if r2.log:
                    ctx.fail("harness", "callback used")
                want = "".join(PREFIX[l] + m + "\n" for l, m in r.log if l <= lev)
                if plainmsg(txt) != plainmsg(want):
                    # standard output and error go to one file here, in order
                    ctx.fail("printed", f"{op.fn}, {what}, level {lev} ({how}): printed {txt[:300]!r}, expected {want[:300]!r}")
                ctx.sig("default", lev, how, op.fn, what, r.rc)
        finally:
            g.stop()


def any_case(ctx, i):
    return (default if i % 4 == 3 else case)(ctx, i)


def main(only=None):
    c = vf.Check("C20", rule="every operation with valid, null, empty, missing, malformed and foreign arguments and with faults: error return and error-level messages have to come together; the same calls at every maximum level, without a callback, and in processes with the default logger and each GEODIFF_LOGGER_LEVEL. Non-trivial: distinct (operation, situation, result, messages)",
                 assumptions=["messages that SQLite itself logs are passed on as errors and may appear on success (e.g. about a constraint that a postponed change violated at first)", "the wording of messages is not judged"])
    c.run_cases(any_case, only or range(160 if vf.TIER == "quick" else 1600))
    return c.finish()
