import shutil
import vf, dbgen


def case(ctx, i):
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"wide": True, "gpkg": False, "pk": "text", "collpk": True} if i % 16 == 5 else {"wide": True})
    a, b = dbgen.dump(base), dbgen.dump(mod)
    cs, out = ctx.path("out.diff"), ctx.path("patched.db")
    if rng.random() < 0.8:
        ctx.ok("createChangeset", base, mod, cs)
    else:
        ctx.ok("createChangesetEx", "sqlite", rng.choice([None, ""]), base, mod, cs)
    shutil.copyfile(base, out)
    if rng.random() < 0.8:
        ctx.ok("applyChangeset", out, cs)
    else:
        ctx.ok("applyChangesetEx", "sqlite", rng.choice([None, ""]), out, cs)
    d = dbgen.dump(out)
    if dbgen.norm(d) != dbgen.norm(b):
        ctx.fail("result-differs", "base + changeset is not the modified database: " + dbgen.diffdesc(d, b))
    if dbgen.integrity(out) != [("ok",)]:
        ctx.fail("integrity", "patched database fails integrity_check")
    n = sum(ed.values())
    ctx.count("edits", n)
    ctx.count("gpkg" if gpkg else "plain_sqlite")
    for t in tables:
        ctx.count("pk:" + t.pkstyle)
    if dbgen.norm(a) != dbgen.norm(b):
        ctx.sig([(t.name, t.ddl()) for t in tables], sorted(dbgen.ref_diff(a, b), key=repr))
    ctx.sample({"tables": [t.ddl() for t in tables], "edits": ed})


def unique_case(ctx, i):
    """unique values move between rows: deleted or changed rows free the value another row takes"""
    rng = ctx.rng
    base, mod, out, cs = (ctx.path(x) for x in ("base.db", "mod.db", "patched.db", "out.diff"))
    n = rng.choice([2, 3, 5, 8, 60])
    c = dbgen.connect(base)
    notnull = rng.random() < 0.3
    c.execute(f"CREATE TABLE t (fid INTEGER PRIMARY KEY, u {rng.choice(['TEXT', 'INTEGER'])} {'NOT NULL' if notnull else ''} UNIQUE, v TEXT, w INTEGER, UNIQUE (v, w))")
    before = {k: (rng.choice([None, k * 10]) if not notnull else k * 10, "a", k) for k in range(1, n + 1)}
    after = dict(before)
    for _ in range(rng.randint(1, 2 * n)):
        k = rng.randint(1, n + 3)
        used = {r[0] for r in after.values()}
        r = rng.random()
        if r < 0.3:
            after.pop(k, None)
        else:
            u = rng.choice([x * 10 for x in range(1, n + 4) if x * 10 not in used] or [None])
            if u is None and notnull:
                continue
            vw = ("a", rng.randint(1, n + 3))
            if vw in [r[1:] for r in after.values()]:
                vw = after[k][1:] if k in after else ("b", k)
                if k not in after and vw in [r[1:] for r in after.values()]:
                    continue
            after[k] = (u, *vw)
    if rng.random() < 0.3:      # shift everything by one
        d = rng.choice([-10, 10])
        after = {k: (None if r[0] is None else r[0] + d, *r[1:]) for k, r in before.items()}
    c.execute("BEGIN")
    c.executemany("INSERT INTO t VALUES (?,?,?,?)", [(k, *r) for k, r in before.items()])
    c.execute("COMMIT")
    c.close()
    shutil.copyfile(base, mod)
    c = dbgen.connect(mod)
    c.execute("BEGIN")
    c.execute("DELETE FROM t")
    c.executemany("INSERT INTO t VALUES (?,?,?,?)", [(k, *r) for k, r in after.items()])
    c.execute("COMMIT")
    c.close()
    # can the changes be made one after another in some order?
    cur, todo = dict(before), {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
    while todo:
        done = set()
        for k in todo:
            r = after.get(k)
            others = [x for y, x in cur.items() if y != k]
            if r is None or ((r[0] is None or r[0] not in [x[0] for x in others]) and r[1:] not in [x[1:] for x in others]):
                cur.pop(k, None)
                if r is not None:
                    cur[k] = r
                done.add(k)
        if not done:
            ctx.count("unique_cycles")
            raise vf.Skip()
        todo -= done
    a, b = dbgen.dump(base), dbgen.dump(mod)
    ctx.ok("createChangeset", base, mod, cs)
    shutil.copyfile(base, out)
    ctx.ok("applyChangeset", out, cs, key="unique-moved")
    d = dbgen.dump(out)
    if dbgen.norm(d) != dbgen.norm(b):
        ctx.fail("result-differs", "base + changeset is not the modified database: " + dbgen.diffdesc(d, b))
    ctx.count("unique_moves")
    if before != after:
        ctx.sig(sorted(before.items()), sorted(after.items()))


def swap_case(ctx, i):
    """two rows exchange their unique values: no order of single changes works"""
    base, mod, out, cs = (ctx.path(x) for x in ("base.db", "mod.db", "patched.db", "out.diff"))
    c = dbgen.connect(base)
    c.execute("CREATE TABLE t (fid INTEGER PRIMARY KEY, u TEXT UNIQUE)")
    c.execute("INSERT INTO t VALUES (1,'a'),(2,'b')")
    c.close()
    shutil.copyfile(base, mod)
    c = dbgen.connect(mod)
    for s in ("UPDATE t SET u='x' WHERE fid=1", "UPDATE t SET u='a' WHERE fid=2", "UPDATE t SET u='b' WHERE fid=1"):
        c.execute(s)
    c.close()
    ctx.ok("createChangeset", base, mod, cs)
    shutil.copyfile(base, out)
    ctx.ok("applyChangeset", out, cs, key="unique-swap")
    if dbgen.norm(dbgen.dump(out)) != dbgen.norm(dbgen.dump(mod)):
        ctx.fail("result-differs", "base + changeset is not the modified database")
    ctx.sig("swap")


def any_case(ctx, i):
    return swap_case(ctx, i) if i == 0 else unique_case(ctx, i) if i % 12 == 0 else case(ctx, i)


def main(only=None):
    c = vf.Check("C01", rule="random SQLite/GeoPackage schema and rows, random edits on a copy; non-trivial: the two databases differ (counted by schema and difference)",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "Python sqlite3 (same SQLite 3.45.1) reads the databases back"])
    n = 6000 if vf.TIER == "quick" else 20000
    c.run_cases(any_case, only or range(n))
    return c.finish()
