"""The same calls in a fresh process and in one that has made other calls before (also failing ones, on the same paths) give the same results."""
import os, random, shutil
import vf, build, dbgen, merge, pg
from c21 import Sub
from c30 import state, lite_jobs, pg_jobs, prepare, run, compare

NAMES = [(x + ".db", x + ".db") for x in ("base", "theirs", "mine")] + [("base.db", "copy1.db"), ("base.db", "copy2.db"), ("mine.db", "mine1.db"), ("mine.db", "mine2.db"), ("theirs.db", "theirs3.db"), ("garbage", "garbage")]
# calls that fail at once
BAD = [("createChangeset", None, None, None), ("applyChangeset", None, None), ("rebase", None, None, None, None), ("listChanges", None, None), ("hasChanges", None), ("createChangesetEx", "nope", "", "a", "b", "c"),
       ("dumpData", "sqlite", "", "/nonexistent/x", "/nonexistent/y"), ("makeCopy", None, None, None, None, None, None), ("applyChangesetEx", "", "", "", "")]


def quote(n):
    return '"' + n.replace('"', '""') + '"'


def other_world(ctx, src, dst, rng):
    """the same tables with other columns or other rows: what was remembered about the first ones would be wrong"""
    shutil.copytree(src, dst)
    kind = rng.choice(["column", "rows", "both", "empty", "keys", "crs", "composite", "composite"])
    for n in ("base.db", "theirs.db", "mine.db"):
        c = dbgen.connect(f"{dst}/{n}")
        try:
            ts = [t for (t,) in c.execute("SELECT name FROM sqlite_master WHERE type='table' AND sql NOT LIKE 'CREATE VIRTUAL%' ORDER BY name").fetchall() if not str(t).lower().startswith(("sqlite_", "rtree_", "gpkg_"))]
            for t in ts:
                try:
                    if kind in ("column", "both"):
                        c.execute(f"ALTER TABLE {quote(t)} ADD COLUMN zz_extra TEXT")
                        c.execute(f"UPDATE {quote(t)} SET zz_extra = hex(randomblob(2))")
                    if kind in ("rows", "both") or kind == "composite" and n == "theirs.db":
                        c.execute(f"DELETE FROM {quote(t)} WHERE abs(random()) % 3 = 0")
                    if kind == "empty":
                        c.execute(f"DELETE FROM {quote(t)}")
                    if kind == "keys":
                        c.execute(f"ALTER TABLE {quote(t)} RENAME TO zz_tmp")
                        c.execute(f"CREATE TABLE {quote(t)} (a TEXT PRIMARY KEY, b)")
                        c.execute(f"INSERT INTO {quote(t)} VALUES (hex(randomblob(3)), 1)")
                        c.execute("DROP TABLE zz_tmp")
                except Exception:       # triggers, constraints, functions that are not there
                    pass
            if kind == "composite":
                # a rebase fails at the last table, after it has read the changes of the others
                c.execute("CREATE TABLE zz_comp (a, b, x, PRIMARY KEY (a, b))")
                if n != "base.db":
                    c.execute("INSERT INTO zz_comp VALUES (1, 2, 3)")
            if kind == "crs":
                c.execute("UPDATE gpkg_spatial_ref_sys SET definition = definition || 'x', organization_coordsys_id = organization_coordsys_id + 1")
            c.commit()
        except Exception:
            pass
        finally:
            c.close()
    return kind


def disturb(ctx, rng, jobs):
    """calls of which some fail, with other settings of the logger"""
    gd = ctx.gd
    n = 0
    for j in jobs:
        kind = rng.choice(["plain"] * 4 + ["mem", "bad", "level", "twice", "fread"])
        if kind == "mem":
            gd.cmd("mem", str(rng.randrange(400)), rng.choice("01"))
        elif kind == "fread":
            gd.cmd("fread", str(rng.randrange(4)))
        elif kind == "bad":
            ctx.call(*rng.choice(BAD))
        elif kind == "level":
            gd.cmd("level", str(rng.randrange(5)))
        r = ctx.call(*j)
        if kind == "mem":
            gd.cmd("mem", "-1", "0")
        if kind == "fread":
            gd.cmd("fread", "-1")
        n += r.rc != 0
        if kind == "twice":
            ctx.call(*j)
    gd.cmd("level", "4")
    return n


def fresh(ctx, jobs):
    old, d = ctx.gd, ctx.path("fresh.tmp")
    os.makedirs(d)
    g = vf.Gd(old.exe, d)
    try:
        ctx.gd = g
        return run(ctx, jobs)
    finally:
        ctx.gd = old
        g.stop()


def place(ctx, d, src):
    if os.path.isdir(d):
        shutil.rmtree(d)
    prepare(ctx, d, src, NAMES)


def lite_case(ctx, i):
    rng = ctx.rng
    merge.gen_triple(rng, Sub(ctx, ctx.path("w0")))
    open(ctx.path("w0/garbage"), "wb").write(b"T\x02\x01\0t")
    worlds = []
    for k in range(rng.choice([1, 1, 2])):
        d = ctx.path(f"w{k + 1}")
        if rng.random() < 0.6:
            worlds.append((d, other_world(ctx, ctx.path("w0"), d, rng)))
        else:
            merge.gen_triple(rng, Sub(ctx, d))
            open(d + "/garbage", "wb").write(b"T\x01\x01")
            worlds.append((d, "other"))
    frac, st = rng.choice([0.4, 1]), rng.getrandbits(30)
    place(ctx, ctx.path("ref"), ctx.path("w0"))
    inputs = set(os.listdir(ctx.path("ref")))
    P = lambda x: ctx.path("var/" + x)
    jr = [lite_jobs(random.Random(st), p, frac) for p in (lambda x: ctx.path("ref/" + x), P)]
    a = fresh(ctx, jr[0])
    sa = state(ctx.path("ref"))
    failed = 0
    for rnd in range(2):
        other = ctx.path("tmp%d" % rnd)          # what the earlier calls used is gone later
        if rng.random() < 0.5:
            os.makedirs(other)
            ctx.gd.cmd("env", "TMPDIR", other + rng.choice(["", "/"]))
            ctx.count("other TMPDIR before")
        for d, kind in worlds:
            place(ctx, ctx.path("var"), d)
            jobs = lite_jobs(rng, P, 1)
            rng.shuffle(jobs)
            failed += disturb(ctx, rng, jobs[:rng.choice([3, 8, 40])])
        ctx.gd.cmd("env", "TMPDIR", ctx.gd.tmp + "/")
        shutil.rmtree(other, ignore_errors=True)
        place(ctx, ctx.path("var"), ctx.path("w0"))
        if rnd == 1:
            # what calls write may be there already
            for f in sorted(os.listdir(ctx.path("ref"))):
                if f not in inputs and os.path.isfile(ctx.path("ref/" + f)) and rng.random() < 0.7:
                    ctx.count("outputs that existed")
                    if rng.random() < 0.5:
                        shutil.copyfile(ctx.path("ref/" + f), P(f))
                    else:
                        open(P(f), "wb").write(os.urandom(rng.choice([0, 1, 50, 20000])))
        v = run(ctx, jr[1])
        compare(ctx, a, v, sa, state(ctx.path("var")), ["earlier calls"], jr[0])
    for d, kind in worlds:
        ctx.count("before:" + kind)
    ctx.count("earlier calls that failed", failed)
    if any(r[1] == 0 for r in a):
        ctx.sig("lite", [k for _, k in worlds], failed, sorted(map(repr, sa.items())))
    ctx.sample({"earlier": [k for _, k in worlds], "calls": [j[0] for j in jr[0]]})


def pg_case(ctx, i):
    rng = ctx.rng
    db, s1, s2, tables, r1, r2 = pg.gen_pair(rng, ctx, {"geom": True} if rng.random() < 0.6 else None)
    s3 = "third's"
    db.create(s3, tables, r1)
    dbs = []
    for d in ("ref", "var"):
        os.makedirs(ctx.path(d))
        shutil.copyfile(db.path, ctx.path(d + "/pg.db"))
        x = pg.Db.__new__(pg.Db)
        x.ctx, x.path = ctx, ctx.path(d + "/pg.db")
        x.info = "host=localhost user=x dbname=" + x.path
        dbs.append(x)
    frac, st = rng.choice([0.5, 1]), rng.getrandbits(30)
    jr = [pg_jobs(random.Random(st), (lambda d: lambda x: ctx.path(d + "/" + x))(d), x.info, s1, s2, s3, frac) for d, x in zip(("ref", "var"), dbs)]
    a = fresh(ctx, jr[0])
    ctx.gd.cmd("pgreset")
    sa = state(ctx.path("ref"), dbs[0])
    failed = 0
    for rnd in range(2):
        # other rows, in the other direction, lost connections
        shutil.copyfile(db.path, dbs[1].path)
        ctx.gd.cmd("pgreset")
        for t in tables:
            for s in (s1, s2, s3):
                if rng.random() < 0.5:
                    ctx.gd.cmd("pgexec", dbs[1].info, f'DELETE FROM {pg.qi(s)}.{pg.qi(t.name)}')
        jobs = pg_jobs(rng, lambda x: ctx.path("var/" + x), dbs[1].info, *rng.sample([s1, s2, s3], 3), 1)
        rng.shuffle(jobs)
        for j in jobs:
            fault = rng.random() < 0.3
            if fault:
                ctx.gd.cmd("pgfault", rng.randrange(30), rng.choice([1, 2, 3, 4, 5]))
            failed += ctx.call(*j).rc != 0
            if fault:
                ctx.gd.cmd("pgfault", -1, 0)
        for f in os.listdir(ctx.path("var")):
            os.unlink(ctx.path("var/" + f))
        shutil.copyfile(db.path, dbs[1].path)
        ctx.gd.cmd("pgreset")
        v = run(ctx, jr[1])
        compare(ctx, a, v, sa, state(ctx.path("var"), dbs[1]), ["earlier calls"], jr[0])
    ctx.count("earlier calls that failed", failed)
    if any(r[1] == 0 for r in a):
        ctx.sig("pg", failed, [t.ddl("s") for t in tables], sorted(map(repr, r1.items())), sorted(map(repr, r2.items())))


def any_case(ctx, i):
    return pg_case(ctx, i) if i % 3 == 2 else lite_case(ctx, i)


def main(only=None):
    c = vf.Check("C32", rule="a list of calls run in a fresh process and in one that made other calls before (other databases under the same paths and with the same table names, calls that fail, that run out of memory or lose the connection, other logger settings): same codes, files, rows. Non-trivial: at least one call succeeded (counted by inputs and history)",
                 assumptions=["PostgreSQL is emulated (native/pgemu.cpp)", "libgpkg is replaced by /verif/native/gpkg_shim.cpp"])
    c.run_cases(any_case, only or range(450 if vf.TIER == "quick" else 6000), exe=build.pgrun())
    return c.finish()
