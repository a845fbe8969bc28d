import os, shutil, sqlite3
import vf, dbgen, crafted, merge
from changeset import encode, decode
from c02 import read
from c13 import Op, scenario, ALLW
from c14 import RD
import c10


def listing(d, skip=()):
    out = {}
    for root, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(root, n)
            out[p] = "dir" if os.path.isdir(p) else "link" if os.path.islink(p) else "file"
    return out


class Watch:
    def __init__(self, ctx, op, outs, targets):
        self.ctx, self.op, self.outs, self.targets = ctx, op, set(outs), set(targets)
        self.before = listing(ctx.dir)
        self.tmp = set(os.listdir(ctx.gd.tmp))
        self.bytes = {p: read(p) for p, k in self.before.items() if k == "file" and p not in self.outs and p not in self.targets and not p.endswith(("-wal", "-shm"))}
        self.wal = {p: dbgen.full_dump(p) for p in list(self.bytes) if os.path.exists(p + "-wal") or self.bytes[p][18:20] == b"\2\2"}

    def check(self, what, r):
        ctx = self.ctx
        after = listing(ctx.dir)
        fn = self.op
        sidecars = {d + s for d in list(self.targets) + list(self.wal) + list(self.outs) for s in ("-wal", "-shm", "-journal")}
        extra = set(after) - set(self.before) - self.outs - sidecars
        if extra:
            ctx.fail("leftover:" + fn, f"{fn}, {what} (rc {r.rc}): left {sorted(os.path.relpath(x, ctx.dir) for x in extra)[:5]}")
        gone = set(self.before) - set(after) - self.outs - sidecars
        if gone:
            ctx.fail("removed:" + fn, f"{fn}, {what} (rc {r.rc}): removed {sorted(os.path.relpath(x, ctx.dir) for x in gone)[:5]}")
        tmp = set(os.listdir(ctx.gd.tmp)) - self.tmp - {os.path.basename(ctx.dir)}
        if tmp:
            ctx.fail("tmp:" + fn, f"{fn}, {what} (rc {r.rc}): left temporary files {sorted(tmp)[:5]}")
        for p, b in self.bytes.items():
            if p in self.wal:
                if read(p)[18:20] != b[18:20]:
                    ctx.fail("journal-mode:" + fn, f"{fn}, {what} (rc {r.rc}): the journal mode of {os.path.basename(p)} changed ({b[18:20]} to {read(p)[18:20]})")
                if dbgen.full_dump(p) != self.wal[p]:
                    ctx.fail("input:" + fn, f"{fn}, {what} (rc {r.rc}): content of {os.path.basename(p)} changed")
            elif read(p) != b:
                ctx.fail("input:" + fn, f"{fn}, {what} (rc {r.rc}): {os.path.basename(p)} changed")


def unlocked(ctx, dbs, what):
    for db in dbs:
        if not os.path.isfile(db):
            continue
        c = None
        try:
            c = sqlite3.connect(db, isolation_level=None, timeout=0)
            c.execute("BEGIN EXCLUSIVE")
            c.execute("ROLLBACK")
        except sqlite3.DatabaseError as e:
            if "locked" in str(e):
                ctx.fail("lock", f"{what}: {os.path.basename(db)} is still locked")
        finally:
            if c:
                c.close()


def outputs(op):
    return op.outs, [d for d, _ in op.inplace]


def once(ctx, op, what, arm=None, disarm=None, dbs=()):
    """one observed call"""
    op.reset()
    w = Watch(ctx, op.fn, *outputs(op))
    if arm:
        arm()
    r = ctx.call(op.fn, *op.args)
    if disarm:
        disarm()
    w.check(what, r)
    unlocked(ctx, dbs, f"{op.fn}, {what} (rc {r.rc})")
    ctx.count("observed_calls")
    ctx.count("rc0" if r.rc == 0 else "rc!=0")
    return r


def steady(ctx, op, what, arm=None, disarm=None, n=3):
    """descriptors and memory do not grow when a call is repeated"""
    seen = []
    for _ in range(n + 1):
        op.reset()
        if arm:
            arm()
        r = ctx.call(op.fn, *op.args)
        if disarm:
            disarm()
        seen.append(ctx.gd.cmd("obs"))
    a, b = seen[1], seen[-1]
    for k, name in (("fds", "file descriptors"), ("live", "memory blocks"), ("sqlite", "bytes of SQLite memory")):
        if b[k] > a[k]:
            ctx.fail(f"leak-{k}:" + op.fn, f"{op.fn}, {what} (rc {r.rc}): {b[k] - a[k]} {name} more after {n - 1} more calls")
    ctx.count("repeated_calls", n + 1)
    ctx.sig("steady", op.fn, what.split(" ")[0], r.rc)


def all_ops(ctx):
    P = ctx.path
    ops = scenario(ctx)
    ops += [Op("applyChangeset", [P("a.db"), P("bm.diff")], [], [(P("a.db"), P("base.db"))]),
            Op("applyChangeset", [P("a.db"), P("bt.diff")], [], [(P("a.db"), P("mine.db"))]),       # often a conflict
            Op("applyChangesetEx", ["sqlite", None, P("a.db"), P("cr.diff")], [], [(P("a.db"), P("base.db"))]),
            Op("changesCount", [P("bm.diff")], []), Op("hasChanges", [P("bm.diff")], []),
            Op("makeCopy", ["sqlite", None, P("base.db"), "sqlite", None, P("copy2.db")], [P("copy2.db")])]
    return ops


def case(ctx, i):
    rng = ctx.rng
    ops = all_ops(ctx)
    P = ctx.path
    dbs = [P(n) for n in ("base.db", "theirs.db", "mine.db", "m.db", "a.db", "copy.db")]
    if rng.random() < 0.2:
        for n in ("base.db", "theirs.db", "mine.db"):
            c = dbgen.connect(P(n))
            c.execute("PRAGMA journal_mode=WAL")
            c.close()
    with open(P("unrelated.bin"), "wb") as f:
        f.write(b"keep")
    for op in ops:
        once(ctx, op, "plain", dbs=dbs)
        ctx.sig("plain", op.fn, i % 7)
    for op in rng.sample(ops, 4):
        steady(ctx, op, "plain")
    # failing in the middle
    for op in rng.sample(ops, 4):
        op.reset()
        ctx.gd.vfs(vf.M_FAIL, RD | ALLW, -1)
        n = sum(ctx.call(op.fn, *op.args).vfs["n"])
        ctx.gd.cmd("mem", "-1", "0")
        op.reset()
        m = ctx.call(op.fn, *op.args).vfs["mem"]
        for _ in range(5):
            kind = rng.choice(["vfs", "vfs", "mem", "fsize", "fread"])
            if kind == "vfs" and n:
                k, st = rng.randrange(n), int(rng.random() < 0.2)
                arm = lambda: ctx.gd.vfs(vf.M_FAIL, RD | ALLW, k, st, 0)
                dis = lambda: ctx.gd.vfs()
                what = f"database operation {k} of {n} failing"
            elif kind == "mem" and m:
                k = rng.randrange(m)
                arm = lambda: ctx.gd.cmd("mem", str(k), "0")
                dis = lambda: ctx.gd.cmd("mem", "-1", "0")
                what = f"allocation {k} of {m} failing"
            elif kind == "fread":
                k = rng.randrange(4)
                arm = lambda: ctx.gd.cmd("fread", str(k))
                dis = lambda: ctx.gd.cmd("fread", "-1")
                what = f"file read {k} short"
            else:
                k = rng.choice([0, 1, 10, 50, 300, 1000])
                arm = lambda: ctx.gd.cmd("fsize", str(k))
                dis = lambda: ctx.gd.cmd("fsize", "-1")
                what = f"files limited to {k} bytes"
            sidecar = kind in ("vfs", "fsize")
            if not sidecar or not op.inplace:
                r = once(ctx, op, what, arm, dis, dbs)
                ctx.sig("fault", op.fn, what.split()[0], r.rc, k)
            if rng.random() < 0.5:
                steady(ctx, op, what, arm, dis)
    ctx.sample({"calls": len(ops)})


def failing(ctx, i):
    """wrong inputs: missing, malformed, foreign"""
    rng = ctx.rng
    ops = all_ops(ctx)
    P = ctx.path
    good = read(P("bm.diff")) or read(P("cr.diff"))
    try:
        bad = c10.mutate(rng, good, decode(good))[0]
    except Exception:
        bad = b"T\1\1"
    with open(P("bad.diff"), "wb") as f:
        f.write(bad)
    with open(P("text.db"), "wb") as f:
        f.write(b"not a database at all" * 100)
    with open(P("empty.bin"), "wb"):
        pass
    os.mkdir(P("adir"))
    c = dbgen.connect(P("other.db"))
    c.execute("CREATE TABLE other (id INTEGER PRIMARY KEY, v)")
    c.execute("INSERT INTO other VALUES (1, 2)")
    c.close()
    dbs = [P(n) for n in ("base.db", "theirs.db", "mine.db", "other.db")]
    for op in ops:
        for n, a in enumerate(op.args):
            if not a or a in op.outs or a == "sqlite" or a in [d for d, _ in op.inplace]:
                continue
            v = rng.choice([P("missing"), P("bad.diff"), P("text.db"), P("empty.bin"), P("adir"), P("other.db"), ""])
            args = list(op.args)
            args[n] = v
            o2 = Op(op.fn, args, op.outs, op.inplace)
            what = f"argument {n} is {os.path.basename(v) or 'empty'}"
            r = once(ctx, o2, what, dbs=dbs)
            ctx.sig("wrong", op.fn, what, r.rc)
            if rng.random() < 0.4:
                steady(ctx, o2, what)
        for d, src in op.inplace:
            v = rng.choice([P("text.db"), P("empty.bin"), P("other.db")])
            o2 = Op(op.fn, op.args, op.outs, [(d, v)])
            r = once(ctx, o2, f"target is {os.path.basename(v)}", dbs=dbs)
            steady(ctx, o2, f"target is {os.path.basename(v)}")
    # a failed refusal leaves the target alone
    t = P("t.db")
    shutil.copyfile(P("base.db"), t)
    op = Op("makeCopy", ["sqlite", None, t, "sqlite", None, t], [])
    once(ctx, op, "copied onto itself", dbs=dbs)


def large(ctx):
    """changeset files that are refused as a whole: too large (sparse), a directory, no such file"""
    P = ctx.path
    with open(P("empty.db"), "wb"):
        pass
    for size in (2**31, 2**32 + 5, None, -1):
        big = P("big.diff")
        if size is None:
            os.mkdir(big)
        elif size > 0:
            with open(big, "wb") as f:
                f.truncate(size)
        for fn, args in (("changesCount", [big]), ("hasChanges", [big]), ("listChanges", [big, P("o.json")]), ("invertChangeset", [big, P("o.diff")]), ("applyChangeset", [P("empty.db"), big]),
                         ("createRebasedChangesetEx", ["sqlite", None, "", big, big, P("r.diff"), P("c.json")])):
            steady(ctx, Op(fn, args, []), f"changeset of {size} bytes (-1: missing, None: a directory)")
        if size is None:
            os.rmdir(big)
        elif size > 0:
            os.unlink(big)


def any_case(ctx, i):
    if i == 0:
        large(ctx)
    return failing(ctx, i) if i % 3 == 2 else case(ctx, i)


def main(only=None):
    c = vf.Check("C15", rule="directory listings, input bytes, locks seen by another connection, descriptors, live heap blocks and SQLite memory around every kind of call: plain, with wrong inputs, with faults. Non-trivial: distinct (operation, situation, result)",
                 assumptions=["databases in WAL mode are compared by content: closing the last connection checkpoints them", "journal files left behind after a failing file operation belong to SQLite's recovery and are not counted", "heap growth is looked for from the second repetition on"])
    c.run_cases(any_case, only or range(240 if vf.TIER == "quick" else 2400))
    return c.finish()
