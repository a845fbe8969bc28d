"""Another connection commits while an operation runs: the result describes one committed state of every database."""
import os, re, shutil, sqlite3
import vf, build, dbgen, pg
from dbgen import q
from changeset import decode, FormatError
from c02 import read

POINTS = vf.OP_STMT | vf.OP_ROW | vf.OP_LOCK | vf.OP_READ | vf.OP_OPEN | vf.OP_SIZE
PGOPS = ["createChangesetEx", "createChangesetEx", "dumpData", "makeCopy", "applyChangesetEx", "rebaseEx"]
OPS = ["createChangeset", "createChangeset", "createChangesetEx", "dumpData", "applyChangeset", "applyChangesetEx", "rebase", "rebaseEx"]
INPLACE = ("apply", "rebase")


def content(path):
    """what an output says, in a form that can be compared"""
    if not os.path.exists(path):
        return None
    b = read(path)
    if b.startswith(b"SQLite format 3"):
        d = dbgen.norm(dbgen.dump(path))
        return ("db", d, dbgen.schema_of(path))
    try:
        return ("entries", sorted(map(repr, dbgen.entries_set(decode(b)))))
    except FormatError as e:
        return ("broken", str(e))


def writes(rng, c, tables, schema, few):
    """statements of one transaction that changes at least two tables; run them once on a copy to know that they work"""
    for t in tables:
        for _ in range(6):
            if sum(dbgen.random_edits(rng, c, t, 1 if few else rng.choice([1, 2, 5])).values()):
                break
    if not few:
        c.execute("UPDATE tick SET n=n+1")
        c.execute("UPDATE zz_tick SET n=n+1")
    if schema == "add":
        c.execute("CREATE TABLE added_meanwhile (id INTEGER PRIMARY KEY, v TEXT)")
        c.execute("INSERT INTO added_meanwhile VALUES (1, 'x')")
    if schema == "drop" and tables:
        c.execute(f"DROP TABLE {q(rng.choice(tables).name)}")


class Trace:
    """a connection that records the statements it executes"""
    def __init__(self, c):
        self.c, self.log = c, []

    def execute(self, sql, args=()):
        r = self.c.execute(sql, args)
        if not sql.lstrip().upper().startswith("SELECT"):
            self.log.append((sql, tuple(args)))
        return r


def commit(path, log):
    """the recorded transaction, in one go; False when the database is locked"""
    c = dbgen.connect(path, timeout=0)
    try:
        c.execute("BEGIN IMMEDIATE")
        for s, a in log:
            c.execute(s, a)
        c.execute("COMMIT")
        return True
    except sqlite3.IntegrityError:      # after the changes of the operation
        c.execute("ROLLBACK")
        return False
    except sqlite3.OperationalError as e:
        if "locked" not in str(e) and "busy" not in str(e):
            raise vf.HarnessError(f"commit: {e}")
        try:
            c.execute("ROLLBACK")
        except sqlite3.OperationalError:
            pass
        return False
    finally:
        c.close()


def lite_case(ctx, i):
    rng = ctx.rng
    op = OPS[i % len(OPS)]
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"hostile": 0.15, "gpkg": rng.random() < 0.2})
    for f in (base, mod):
        c = dbgen.connect(f)
        c.execute("CREATE TABLE tick (id INTEGER PRIMARY KEY, n INTEGER)")
        c.execute("CREATE TABLE zz_tick (id INTEGER PRIMARY KEY, n INTEGER)")
        for t in ("tick", "zz_tick"):
            c.execute(f"INSERT INTO {t} VALUES (1, {1 if f == base else 2})")
        c.close()
    wal = rng.random() < 0.5
    cs = ctx.path("cs.diff")
    ctx.ok("createChangeset", base, mod, cs)
    # which database the other connection writes
    tgt = base if op.startswith("apply") or (op.startswith("create") and rng.random() < 0.5) else mod
    schema = rng.choice([None] * 6 + ["add", "drop"])
    theirs = cs2 = None
    if op.startswith("rebase"):
        schema = None
        theirs, cs2 = ctx.path("theirs.db"), ctx.path("theirs.diff")
        shutil.copyfile(base, theirs)
        c = dbgen.connect(theirs)
        for t in tables:
            dbgen.random_edits(rng, c, t, rng.choice([0, 1, 2]))
        c.execute("INSERT INTO tick VALUES (2, 5)")
        c.close()
        ctx.ok("createChangeset", base, theirs, cs2)
    # the writer's transaction; a longer history: the database is left once more before and after
    after = ctx.path("after.db")
    shutil.copyfile(tgt, after)
    c = dbgen.connect(after)
    c.execute("BEGIN")
    tr = Trace(c)
    writes(rng, tr, rng.sample(tables, 1) if theirs else tables, schema, theirs is not None)
    c.execute("COMMIT")
    c.close()
    log = tr.log
    work = ctx.path("work")
    inplace = f"{work}/base.db" if tgt == base else f"{work}/mod.db"

    def fresh(a, b):
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        for x, n in ((a, "base.db"), (b, "mod.db")):
            shutil.copyfile(x, f"{work}/{n}")
            if wal:
                c = dbgen.connect(f"{work}/{n}")
                c.execute("PRAGMA journal_mode=WAL")
                c.close()

    def args():
        B, M, O = f"{work}/base.db", f"{work}/mod.db", f"{work}/out"
        return {"createChangeset": (B, M, O), "createChangesetEx": ("sqlite", "", B, M, O), "dumpData": ("sqlite", "", M, O),
                "applyChangeset": (B, cs), "applyChangesetEx": ("sqlite", "", B, cs),
                "rebase": (B, theirs, M, ctx.path("conflicts")), "rebaseEx": ("sqlite", "", B, M, cs2, ctx.path("conflicts"))}[op]

    def outcome(r):
        out = inplace if op.startswith(INPLACE) else f"{work}/out"
        return (r.rc == 0, content(out) if r.rc == 0 or op.startswith(INPLACE) else None)

    # what is right before and after the transaction of the other connection
    fresh(base, mod)
    gd = ctx.gd
    gd.cmd("stmts", "1")
    try:
        gd.vfs()
        r = ctx.call(op, *args())
        before = outcome(r)
        n = r.vfs["n"]
        total = [n[k] for k in (9, 8, 7, 0, 5, 6)]
        fresh(after if tgt == base else base, after if tgt == mod else mod)
        later = outcome(ctx.call(op, *args()))
        if op.startswith(INPLACE):
            # apply first, then the other transaction
            fresh(base, mod)
            ctx.call(op, *args())
            try:
                first = (before[0], content(inplace) if commit(inplace, log) else None)
            except (sqlite3.Error, vf.HarnessError):
                first = None
        # places where the other connection gets its turn: the beginnings of statements first
        plan = [(vf.OP_STMT, k) for k in pick(rng, n[8], 10)] + [(vf.OP_ROW, k) for k in pick(rng, n[9], 3)]
        for o, ix in ((vf.OP_LOCK, 7), (vf.OP_READ, 0), (vf.OP_OPEN, 5), (vf.OP_SIZE, 6)):
            plan += [(o, k) for k in pick(rng, n[ix], 2)]
        for o, k in plan:
            fresh(base, mod)
            gd.vfs(vf.M_PAUSE, o, k)
            gd.send("call", op, *args())
            d = gd.recv(op)
            done = None
            if d.get("paused"):
                done = commit(inplace, log)
                gd.p.stdin.write(b"go\n")
                gd.p.stdin.flush()
                d = gd.recv(op)
            gd.vfs()
            r = vf.Reply(d)
            got = outcome(r)
            name = {256: "statement", 512: "row", 128: "lock", 1: "read", 32: "open", 64: "size"}[o]
            ctx.count(f"turn:{name}:{'never' if done is None else 'committed' if done else 'locked'}")
            which = "first" if op.startswith(INPLACE) and got == first else "before" if got == before else "after" if got == later else "error" if not got[0] else "mixed"
            what = f"{op}{' (WAL)' if wal else ''}, another connection commits to {'base' if tgt == base else 'modified'} at {name} {k}"
            if op.startswith(INPLACE):
                if not got[0]:
                    # an error leaves what the other transaction made
                    want = content(after) if done else content(tgt)
                    if got[1] != want:
                        ctx.fail(f"error-state", f"{what}: it failed ({r.errors()[-2:]}), but the database is not what the other transaction left")
                elif not done:
                    if got != before:
                        ctx.fail("locked-out", f"{what}: the other transaction was refused, the result differs")
                elif got not in (later, first):
                    ctx.fail("not-serial", f"{what}: both succeeded, the database is the result of no serial order: {dbgen.diffdesc(later[1][1], got[1][1]) if later[0] else 'it fails after the other transaction'}")
            else:
                if not done and got != before:
                    ctx.fail("differs", f"{what}: the transaction was refused, the result differs: {r.rc}")
                if which == "mixed":
                    ctx.fail(f"mixed:{op}", f"{what}: the result is neither that of the state before nor after: {str(got)[:300]} / {str(before)[:300]} / {str(later)[:300]}")
                if which == "error" and not schema and not (before[0] and not later[0]) and not wal and done is False:
                    ctx.fail("error", f"{what}: error {r.errors()[-2:]}")
            if done:
                ctx.count(f"result:{op}:{which}:{'wal' if wal else 'journal'}")
                ctx.sig(op, wal, schema, tgt == base, o, k, n, which)
    finally:
        gd.vfs()
        gd.cmd("stmts", "0")
    ctx.sample({"operation": op, "wal": wal, "points": len(plan)})


def pg_case(ctx, i):
    rng, gd = ctx.rng, ctx.gd
    op = PGOPS[i % len(PGOPS)]
    opts = {"tables": rng.choice([2, 2, 3])}
    if op == "makeCopy" or rng.random() < 0.3:
        opts.update({"geom": True, "dims": ["", "M"], "pk": "serial"})
    db, s1, s2, tables, r1, r2 = pg.gen_pair(rng, ctx, opts)
    for s in (s1, s2):
        db.exec("".join(f"CREATE TABLE {pg.qi(s)}.{t} (id integer PRIMARY KEY, n integer); INSERT INTO {pg.qi(s)}.{t} VALUES (1, {1 if s == s1 else 2});" for t in ("a_tick", "zz_tick"))) if op != "makeCopy" else None
    s3 = "third"
    r3 = {t.name: pg.edit(rng, t, r1[t.name], rng.choice([1, 3])) for t in tables}
    db.create(s3, tables, r3)
    cs, cs2 = ctx.path("cs.diff"), ctx.path("cs2.diff")
    ctx.ok("createChangesetEx", "postgres", db.info, s1, s2, cs)
    if op == "rebaseEx":
        db.exec("".join(f"CREATE TABLE {pg.qi(s3)}.{t} (id integer PRIMARY KEY, n integer); INSERT INTO {pg.qi(s3)}.{t} VALUES (1, 1), (2, 2);" for t in ("a_tick", "zz_tick")))
        ctx.ok("createChangesetEx", "postgres", db.info, s1, s3, cs2)
    # the transaction of the other client replaces the content of (nearly) all tables of one schema
    tgt, old = (s1, r1) if op == "applyChangesetEx" or (op == "createChangesetEx" and rng.random() < 0.5) else (s2, r2)
    sql = ""
    for t in tables:
        if op in ("applyChangesetEx", "rebaseEx"):      # one row, so that both can succeed
            ks = sorted(old[t.name], key=repr) if isinstance(old[t.name], dict) else []
            if ks and t.pk and rng.random() < 0.6:
                k = rng.choice(ks)
                row = old[t.name][k]
                if any(row[j] is None or t.cols[j][3] in ("real", "float4") for j in t.pk):
                    continue
                sql += f"DELETE FROM {pg.qi(tgt)}.{pg.qi(t.name)} WHERE " + " AND ".join(f"{pg.qi(t.cols[j][0])} = {pg.lit(row[j], t.cols[j][3])}" for j in t.pk) + ";"
        else:
            sql += f"DELETE FROM {pg.qi(tgt)}.{pg.qi(t.name)};" + pg.fill_sql(tgt, t, pg.edit(rng, t, old[t.name], rng.choice([1, 3, 6])))
    if op not in ("makeCopy", "rebaseEx"):
        sql += "".join(f"UPDATE {pg.qi(tgt)}.{t} SET n = n + 10;" for t in ("a_tick", "zz_tick"))
    if not sql:
        raise vf.Skip()
    keep = ctx.path("keep.db")
    shutil.copyfile(db.path, keep)
    out = ctx.path("out")
    inplace = op.startswith(INPLACE)

    def fresh():
        for f in (db.path + "-wal", db.path + "-shm", out):
            if os.path.exists(f):
                os.remove(f)
        shutil.copyfile(keep, db.path)

    def args():
        return {"createChangesetEx": ("postgres", db.info, s1, s2, out), "dumpData": ("postgres", db.info, s2, out), "makeCopy": ("postgres", db.info, s2, "sqlite", "", out),
                "applyChangesetEx": ("postgres", db.info, s1, cs), "rebaseEx": ("postgres", db.info, s1, s2, cs2, ctx.path("conflicts"))}[op]

    def outcome(r):
        if inplace:
            c = dbgen.connect(db.path)
            c.execute("PRAGMA journal_mode=DELETE")
            c.close()
            return (r.rc == 0, db.raw())
        c = content(out) if r.rc == 0 else None
        if c and c[0] == "db":
            c = ("db", re.sub(r"20\d\d-\d\d-\d\dT[\d:.]+Z'", "NOW", repr(sorted(c[1].items()))))
        return (r.rc == 0, c)

    def run(at=None, k=-1):
        gd.cmd("pgat", str(k), at or "")
        r = ctx.call(op, *args())
        return r, gd.cmd("pgatdone")["done"]

    try:
        gd.cmd("pgreset")
        gd.cmd("pgmvcc", "1")
        fresh()
        r, _ = run()
        n = gd.cmd("pgstat")["execs"]
        before = outcome(r)
        first = None
        if inplace:
            if not before[0]:
                raise vf.Skip()
            db.exec(sql)
            first = (True, outcome(r)[1])
        fresh()
        db.exec(sql)
        only = outcome(vf.Reply({"rc": 1, "log": [], "vfs": {}})) if inplace else None
        fresh()
        db.exec(sql)
        later = outcome(run()[0])
        for k in pick(rng, n, 14):
            fresh()
            if inplace:
                orig = db.raw()
            r, done = run(sql, k)
            got = outcome(r)
            which = "first" if first and got == first and done == 1 else "before" if got == before else "after" if got == later else "error" if not got[0] else "mixed"
            what = f"{op} (PostgreSQL), another client commits to {'base' if tgt == s1 else 'modified'} before command {k} of {n}"
            ctx.count(f"pg:turn:{'committed' if done == 1 else 'refused'}")
            if inplace:
                if not got[0] and got[1] != (only[1] if done == 1 else orig):
                    ctx.fail("error-state", f"{what}: it failed ({r.errors()[-2:]}), the rows are not those the other transaction left")
                if got[0] and done != 1 and got != before:
                    ctx.fail("locked-out", f"{what}: the other transaction was refused, the result differs")
                if got[0] and done == 1 and got not in (first, later):
                    ctx.fail("not-serial", f"{what}: both succeeded, the rows are the result of no serial order")
            else:
                if which == "mixed":
                    ctx.fail(f"pg:mixed:{op}", f"{what}: the result is neither that of the state before nor after: {str(got)[:300]} / {str(before)[:300]} / {str(later)[:300]}")
                if which == "error" and before[0] and later[0]:
                    ctx.fail("pg:error", f"{what}: error {r.errors()[-2:]}")
            if done == 1:
                ctx.count(f"pg:result:{op}:{which}")
                ctx.sig("pg", op, tgt == s1, k, n, which, [t.ddl("s") for t in tables])
    finally:
        if gd.p is not None:
            gd.cmd("pgmvcc", "0")
            gd.cmd("pgat", "-1")
    ctx.sample({"operation": op, "server": "emulated", "commands": n})


def any_case(ctx, i):
    return pg_case(ctx, i // 3) if i % 3 == 2 else lite_case(ctx, i - i // 3)


def pick(rng, n, k):
    k = k if vf.TIER == "quick" else 4 * k
    return sorted(rng.sample(range(n), min(n, k)))


def main(only=None):
    c = vf.Check("C31", rule="another connection commits a transaction over several tables at a chosen statement, row, lock, read, open or size operation (SQLite; rollback journal and WAL) or before a chosen command (PostgreSQL): the result equals that of the state before or after, in-place operations those of a serial order. Non-trivial: the other transaction was committed while the operation ran, counted by place and state seen",
                 assumptions=["PostgreSQL is emulated on SQLite in WAL mode: repeatable read is a snapshot at the first statement, read committed sees each commit, a writer locks out other writers", "libgpkg is replaced by /verif/native/gpkg_shim.cpp"])
    n = 450 if vf.TIER == "quick" else 6000
    c.run_cases(any_case, only or range(n), exe=build.pgrun())
    return c.finish()
