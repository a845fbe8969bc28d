import os, shutil, sqlite3
import vf, dbgen
from dbgen import q
from changeset import decode
from c02 import read

KINDS = {"write": vf.OP_WRITE, "truncate": vf.OP_TRUNC, "sync": vf.OP_SYNC, "delete": vf.OP_DELETE, "open": vf.OP_OPEN, "size": vf.OP_SIZE, "lock": vf.OP_LOCK, "read": vf.OP_READ}
IDX = {n: i for i, n in enumerate(["read", "write", "truncate", "sync", "delete", "open", "size", "lock"])}
ALLW = vf.OP_WRITE | vf.OP_TRUNC | vf.OP_SYNC | vf.OP_DELETE
SQLITE_FULL, SQLITE_BUSY = 13, 5
SUFFIX = ("", "-journal", "-wal", "-shm")


def scenario(ctx):
    rng = ctx.rng
    opts = {"hostile": 0.2, "edits": rng.choice([1, 3, 8, 20])}
    big = rng.random() < 0.04
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, opts)
    if big:
        # more dirty pages than SQLite's cache holds: writes reach the database before the commit
        for f, n in ((base, 900), (mod, 900)):
            c = dbgen.connect(f)
            c.execute("BEGIN")
            c.execute("CREATE TABLE bulk (fid INTEGER PRIMARY KEY, b BLOB)")
            c.executemany("INSERT INTO bulk VALUES (?,?)", [(k, (b"b" if f == base else b"m") * 3900) for k in range(n)])
            c.execute("COMMIT")
            c.close()
        ctx.count("scenario:cache_spill")
    trig = rng.random() < 0.6
    for f in (base, mod):
        c = dbgen.connect(f)
        if trig:
            c.execute("CREATE TABLE trglog (id INTEGER PRIMARY KEY, m TEXT)")
            for t in tables:
                c.execute(f"CREATE TRIGGER {q('user trg ' + t.name)} AFTER INSERT ON {q(t.name)} BEGIN INSERT INTO trglog (m) VALUES ('x'); END")
        c.close()
    cs = ctx.path("cs.diff")
    ctx.ok("createChangeset", base, mod, cs)
    wal = rng.random() < 0.35
    if wal:
        c = dbgen.connect(base)
        c.execute("PRAGMA journal_mode=WAL")
        c.close()
        ctx.count("scenario:wal")
    else:
        ctx.count("scenario:rollback_journal")
    if read(cs) == b"":
        raise vf.Skip()
    return base, mod, cs, wal, tables, big


class Judge:
    def __init__(self, ctx, base, mod):
        self.ctx = ctx
        self.a, self.b = dbgen.norm(dbgen.dump(base)), dbgen.norm(dbgen.dump(mod))
        self.schema = dbgen.schema_of(base)

    def look(self, db, what):
        """recover the database and say which state it is in: 'base', 'mod'"""
        ctx = self.ctx
        c = dbgen.connect(db)
        try:
            ic = c.execute("PRAGMA integrity_check").fetchall()
            if ic != [("ok",)]:
                ctx.fail("integrity", f"{what}: integrity_check: {str(ic)[:200]}")
            d = dbgen.norm(dbgen.dump_conn(c))
            s = sorted((str(r[0]), str(r[1]), str(r[2]), str(r[3])) for r in c.execute("SELECT type,name,tbl_name,sql FROM sqlite_master"))
        except sqlite3.DatabaseError as e:
            ctx.fail("unreadable", f"{what}: database unreadable after recovery: {e}")
        finally:
            c.close()
        if s != self.schema:
            lost = [x[1] for x in self.schema if x not in s]
            ctx.fail("schema", f"{what}: schema changed, lost {lost[:3]}")
        if d == self.b:
            return "mod"
        if d == self.a:
            return "base"
        bad = [t for t in d if d[t] != self.a.get(t) and d[t] != self.b.get(t)]
        mixed = "" if bad else " (some tables old, some new)"
        ctx.fail("partial", f"{what}: the database is neither before nor after: {bad[:3]}{mixed}")


def fresh(base, db):
    for s in SUFFIX:
        if os.path.exists(db + s):
            os.unlink(db + s)
    shutil.copyfile(base, db)


def points(rng, n, limit):
    return list(range(n)) if n <= limit else sorted(rng.sample(range(n), limit))


def faults(ctx, i):
    rng = ctx.rng
    base, mod, cs, wal, tables, big = scenario(ctx)
    j = Judge(ctx, base, mod)
    db = ctx.path("target.db")
    ctx.gd.vfs()
    fresh(base, db)
    r = ctx.gd.fork("applyChangeset", db, cs)
    if not isinstance(r, vf.Reply) or r.rc != 0:
        ctx.fail("apply-failed", f"apply without faults: {r}")
    if j.look(db, "no fault") != "mod":
        ctx.fail("partial", "apply without faults did not give the modified database")
    n = r.vfs["n"]
    lim = 14 if vf.TIER == "quick" else 60
    plan = []
    for kind, op in KINDS.items():
        cnt = n[IDX[kind]]
        for k in points(rng, cnt, lim if kind != "read" else 6):
            for sticky in (0, 1):
                if sticky and rng.random() < 0.6:
                    continue
                code = 0
                if kind == "write":
                    code = rng.choice([0, SQLITE_FULL])
                if kind == "lock":
                    code = rng.choice([SQLITE_BUSY, 0])
                plan.append((vf.M_FAIL, kind, op, k, sticky, code, 0))
    total = sum(n[IDX[x]] for x in ("write", "truncate", "sync", "delete"))
    for k in points(rng, total, 2 * lim):
        plan.append((vf.M_KILL, "mutating", ALLW, k, 0, 0, int(rng.random() < 0.5)))
    for mode, kind, op, k, sticky, code, torn in plan:
        fresh(base, db)
        ctx.gd.vfs(mode, op, k, sticky, code, torn)
        r = ctx.gd.fork("applyChangeset", db, cs)
        ctx.gd.vfs()
        what = f"{'kill' if mode == vf.M_KILL else 'fail'} {kind} {k} of {total if kind == 'mutating' else n[IDX[kind]]}{' and later ones' if sticky else ''}{' torn' if torn else ''}{' WAL' if wal else ''}"
        state = j.look(db, what)
        if isinstance(r, vf.Reply):
            if r.rc == 0 and state != "mod":
                ctx.fail("success-not-applied", f"{what}: apply reported success, but the database has the old content")
            if r.rc != 0 and state != "base":
                # the changes are there although an error was reported: only if the outcome was decided before
                ctx.fail("error-but-applied", f"{what}: apply reported an error ({r.errors()[-1:]}), but the changes were committed")
            if r.rc != 0 and not r.errors():
                ctx.fail("no-error-logged", f"{what}: failure without an error message")
            if not r.vfs["fired"]:
                ctx.count("not_reached")
                continue
            ctx.count(f"{kind}:{'error' if r.rc else 'tolerated'}:{state}")
        else:
            ctx.count(f"kill:{state}")
        ctx.sig(mode, kind, k, sticky, torn, wal, n)
    ctx.sample({"operations": n, "points": len(plan), "wal": wal})


# ---------------------------------------------------------------- power loss
def parse_trace(p):
    b = read(p)
    o, out = 0, []
    while o < len(b):
        e = b.index(b"\n", o)
        kind, ln, off, n = b[o:e].split()
        o = e + 1
        name = b[o:o + int(ln)].decode("utf-8", "surrogateescape")
        o += int(ln)
        n, data = int(n), None
        if kind == b"W":
            data = b[o:o + n]
            o += n
        out.append((kind.decode(), name, int(off), data))
    return out


class Disk:
    """what survives: content as of the last sync plus any part of what was written since"""
    def __init__(self):
        self.files = {}     # name -> [durable bytes or None, pending ops]

    def load(self, name, content):
        self.files[name] = [content, []]

    def op(self, kind, name, off, data):
        f = self.files.setdefault(name, [None, []])
        if kind == "O":
            if f[0] is None and not any(p[0] == "C" for p in f[1]):
                f[1].append(("C",))
        elif kind == "W":
            f[1].append(("W", off, data))
        elif kind == "T":
            f[1].append(("T", off))
        elif kind == "S":
            f[0] = self.apply(f[0], f[1])
            f[1] = []
        elif kind == "D":
            f[1].append(("D",))

    @staticmethod
    def apply(content, ops):
        b = bytearray(content) if content is not None else None
        for o in ops:
            if o[0] == "D":
                b = None
            elif o[0] == "C":
                b = bytearray() if b is None else b
            elif o[0] == "T":
                b = (b or bytearray())[:o[1]].ljust(o[1], b"\0") if b is not None else bytearray(o[1])
            else:
                b = b if b is not None else bytearray()
                if len(b) < o[1]:
                    b.extend(bytes(o[1] - len(b)))
                b[o[1]:o[1] + len(o[2])] = o[2]
        return None if b is None else bytes(b)

    def crash(self, rng, mode, done=False):
        """files after power loss; mode: 'all' pending kept, 'none', 'random' (torn by 512 byte sectors)"""
        out = {}
        for n, (dur, pend) in self.files.items():
            if mode == "all":
                keep = pend
            elif mode == "none":
                # SQLite's default does not sync the directory after deleting the journal: deletions count as
                # persisted once the call has returned
                keep = [o for o in pend if done and o[0] in "DC"]
            else:
                keep = []
                for o in pend:
                    if o[0] == "W":
                        for s in range(0, len(o[2]), 512):
                            if rng.random() < 0.5:
                                keep.append(("W", o[1] + s, o[2][s:s + 512]))
                    elif rng.random() < 0.5 or done:
                        keep.append(o)
            out[n] = self.apply(dur, keep)
        return out


def powerloss(ctx, i):
    rng = ctx.rng
    base, mod, cs, wal, tables, big = scenario(ctx)
    j = Judge(ctx, base, mod)
    db, tr = ctx.path("target.db"), ctx.path("trace")
    fresh(base, db)
    ctx.gd.vfs()
    ctx.gd.cmd("trace", tr)
    r = ctx.gd.fork("applyChangeset", db, cs)
    ctx.gd.cmd("trace", "")
    if not isinstance(r, vf.Reply) or r.rc != 0:
        ctx.fail("apply-failed", f"apply without faults: {r}")
    ops = [o for o in parse_trace(tr) if os.path.basename(o[1]).startswith("target.db") and not o[1].endswith("-shm")]
    muts = [o for o in ops if o[0] != "O"]
    if not any(o[0] == "S" for o in ops):
        ctx.fail("never-synced", "apply finished without a single sync")
    disk = Disk()
    disk.load(db, read(base))
    lim = 40 if vf.TIER == "quick" else 400
    at = set(points(rng, len(ops) + 1, lim)) | {len(ops)}
    out = ctx.path("after.db")
    for k in range(len(ops) + 1):
        if k in at:
            for mode in ("none", "all", "random", "random"):
                state = disk.crash(rng, mode, k == len(ops))
                for s in SUFFIX:
                    if os.path.exists(out + s):
                        os.unlink(out + s)
                for n, b in state.items():
                    if b is not None:
                        with open(out + n[len(db):], "wb") as f:
                            f.write(b)
                what = f"power loss after operation {k} of {len(ops)} ({mode} of the unsynced writes kept{', WAL' if wal else ''})"
                st = j.look(out, what)
                if k == len(ops) and st != "mod":
                    ctx.fail("not-durable", f"{what}: apply had reported success, but the database has the old content")
                ctx.count(f"powerloss:{st}")
                ctx.sig("power", k, len(ops), mode, wal, st, [o[0] for o in muts][:60])
        if k < len(ops):
            o = ops[k]
            disk.op(*o)
    ctx.count("powerloss_scenarios")
    ctx.sample({"operations": [f"{o[0]} {os.path.basename(o[1])} {o[2]}" for o in ops][:30]})


# ---------------------------------------------------------------- other connections
def locks(ctx, i):
    rng = ctx.rng
    base, mod, cs, wal, tables, big = scenario(ctx)
    j = Judge(ctx, base, mod)
    db = ctx.path("target.db")
    for hold in ("reader", "reserved", "exclusive"):
        fresh(base, db)
        c = dbgen.connect(db)
        if hold == "reader":
            c.execute("BEGIN")
            c.execute("SELECT count(*) FROM sqlite_master").fetchall()
        else:
            c.execute("BEGIN IMMEDIATE" if hold == "reserved" else "BEGIN EXCLUSIVE")
        r = ctx.call("applyChangeset", db, cs)
        c.execute("ROLLBACK")
        c.close()
        st = j.look(db, f"another connection holds a lock ({hold})")
        if (r.rc == 0) != (st == "mod"):
            ctx.fail("locked-status", f"another connection holds a lock ({hold}{', WAL' if wal else ''}): apply returned {r.rc}, content is {st}")
        if hold == "exclusive" and r.rc == 0:
            ctx.fail("locked-status", "apply succeeded on an exclusively locked database")
        ctx.count(f"lock:{hold}:{'wal' if wal else 'journal'}:{'error' if r.rc else 'ok'}")
        ctx.sig("lock", hold, wal, r.rc)
    # a reader looks at every moment of the apply: sees the old content, or is locked out
    fresh(base, db)
    r = ctx.gd.fork("applyChangeset", db, cs)
    n = r.vfs["n"][IDX["write"]]
    for k in points(rng, n, 6 if vf.TIER == "quick" else 30):
        fresh(base, db)
        ctx.gd.vfs(vf.M_PAUSE, vf.OP_WRITE, k)
        ctx.gd.send("call", "applyChangeset", db, cs)
        d = ctx.gd.recv("applyChangeset")
        seen = None
        if d.get("paused"):
            c = dbgen.connect(db, timeout=0)
            try:
                d1 = dbgen.norm(dbgen.dump_conn(c))
                seen = "base" if d1 == j.a else "mod" if d1 == j.b else "partial"
            except sqlite3.OperationalError as e:
                seen = "locked" if "locked" in str(e) else f"error {e}"
            c.close()
            ctx.gd.p.stdin.write(b"go\n")
            ctx.gd.p.stdin.flush()
            d = ctx.gd.recv("applyChangeset")
        ctx.gd.vfs()
        r = vf.Reply(d)
        what = f"reader at write {k} of {n}{' (WAL)' if wal else ''}"
        if seen == "partial" or (seen == "mod" and k < n - 1 and not wal):
            ctx.fail("dirty-read", f"{what}: another connection saw {seen} content during apply")
        st = j.look(db, what)
        if (r.rc == 0) != (st == "mod"):
            ctx.fail("locked-status", f"{what}: apply returned {r.rc}, content is {st}")
        ctx.count(f"reader_saw:{seen}")
        ctx.sig("reader", k, n, wal, seen)


def diskfull(ctx, i):
    """real file size limit while applying"""
    rng = ctx.rng
    base, mod, cs, wal, tables, big = scenario(ctx)
    j = Judge(ctx, base, mod)
    db = ctx.path("target.db")
    size = os.path.getsize(base)
    fresh(base, db)
    for lim in sorted({0, 100, 512, 1024, size // 2, max(0, size - 1), size, size + 1, size + 512, size + 1024, size + 4096, size + 8192, rng.randint(1, size + 20000)}):
        fresh(base, db)
        ctx.gd.cmd("fsize", str(lim))
        try:
            r = ctx.gd.fork("applyChangeset", db, cs)
        finally:
            ctx.gd.cmd("fsize", "-1")
        st = j.look(db, f"file size limit {lim}")
        if (r.rc == 0) != (st == "mod"):
            ctx.fail("full-status", f"file size limit {lim}: apply returned {r.rc}, content is {st}")
        ctx.count(f"fsize:{'error' if r.rc else 'ok'}:{st}")
        ctx.sig("fsize", lim - size, r.rc)


def conflicts(ctx, i):
    """one conflicting entry anywhere among the tables: refused as a whole, nothing of the rest applied"""
    rng = ctx.rng
    wal = rng.random() < 0.2
    tables = dbgen.gen_gpkg_schema(rng, {}) if rng.random() < 0.3 else dbgen.gen_schema(rng, {"tables": rng.choice([2, 3, 4])})
    tables = [t for t in tables if t.pkstyle in ("int", "autoinc", "pklast", "text", "intnorowid", "comp", "worowid")]
    base, mod, cs = ctx.path("base.db"), ctx.path("mod.db"), ctx.path("cs.diff")
    c = dbgen.create_db(base, tables, bool(tables and tables[0].geomcol is not None), wal=wal)
    for t in tables:
        dbgen.populate(rng, c, t, rng.choice([2, 5, 10]))
    c.close()
    shutil.copyfile(base, mod)
    c = dbgen.connect(mod)
    for t in tables:
        dbgen.random_edits(rng, c, t, rng.choice([1, 3, 6]))
    c.close()
    ctx.ok("createChangeset", base, mod, cs)
    es = decode(read(cs))
    order = sorted({e.table for e in es}, key=[e.table for e in es].index)
    db = ctx.path("target.db")
    for n, t in enumerate(order):
        mine = [k for k in range(len(es)) if es[k].table == t]
        for k in {mine[0], rng.choice(mine), mine[-1]}:
            e = es[k]
            fresh(base, db)
            c = dbgen.connect(db)
            cols, pk = dbgen.pkcols(c, t)
            w = " AND ".join(f"{q(x)} IS ?" for x, p in zip(cols, pk) if p)
            try:
                if e.op == 18:
                    how = "key exists"
                    c.execute(f"INSERT INTO {q(t)} ({','.join(map(q, cols))}) VALUES ({','.join('?' * len(cols))})", list(e.new))
                else:
                    how = "row missing"
                    c.execute(f"DELETE FROM {q(t)} WHERE {w}", [o for o, p in zip(e.old, pk) if p])
            except sqlite3.IntegrityError:
                c.close()
                continue
            c.close()
            before = dbgen.full_dump(db)
            r = ctx.call("applyChangeset", db, cs)
            what = f"{how} in table {n + 1} of {len(order)}"
            after = dbgen.full_dump(db)
            if r.rc == 0:
                ctx.fail("accepted", f"{what}: apply succeeded although an entry does not fit")
            if after != before:
                ctx.fail("partial", f"{what}: apply failed and left changes in {[x for x in before if before[x] != after.get(x)][:3]}")
            if dbgen.integrity(db) != [("ok",)]:
                ctx.fail("integrity", what)
            ctx.count(f"conflict:{how}:{'only' if len(order) == 1 else 'first' if n == 0 else 'last' if n == len(order) - 1 else 'middle'}_table")
            ctx.sig("conflict", how, n, len(order), k, len(es))
            if rng.random() < 0.5:
                undo_faults(ctx, db, cs, before, what)


def undo_faults(ctx, db, cs, before, what):
    """the call that has to be refused, while the taking back of what it did runs into trouble"""
    rng = ctx.rng
    src = db + ".src"
    dbgen.full_dump(db)          # the log of a WAL database is empty now
    shutil.copyfile(db, src)

    def judge(how):
        c = sqlite3.connect(db)      # recovers it, if there is something to recover
        c.execute("SELECT count(*) FROM sqlite_master").fetchall()
        c.close()
        after = dbgen.full_dump(db)
        if r.rc == 0:
            ctx.fail("accepted", f"{what}, {how}: apply succeeded although an entry does not fit")
        if after != before:
            ctx.fail("partial", f"{what}, {how}: apply failed and left changes in {[x for x in before if before[x] != after.get(x)][:3]}")
        if dbgen.integrity(db) != [("ok",)]:
            ctx.fail("integrity", f"{what}, {how}")
        ctx.count(how.split()[0] + " while taking back")
    ctx.gd.cmd("mem", "-1", "0")
    fresh(src, db)
    sites = ctx.gd.sites("m", "applyChangeset", db, cs)[1]
    lim = 25 if vf.TIER == "quick" else 120
    for k in sorted(set(vf.pick_sites(rng, sites, lim)) | set(range(max(0, len(sites) - lim), len(sites)))):
        fresh(src, db)
        st = rng.choice("01")
        ctx.gd.cmd("mem", str(k), st)
        r = ctx.call("applyChangeset", db, cs)
        ctx.gd.cmd("mem", "-1", "0")
        judge(f"allocation {k} of {len(sites)} failing (sticky {st})")
        ctx.sig("undomem", k, len(sites), st, r.vfs["memfired"])
    fresh(src, db)
    ctx.gd.vfs(vf.M_FAIL, ALLW, -1)
    n = ctx.call("applyChangeset", db, cs).vfs["n"]
    for kind, op in KINDS.items():
        cnt = n[IDX[kind]]
        for k in points(rng, cnt, 4 if vf.TIER == "quick" else 30):
            fresh(src, db)
            st = rng.choice([0, 1])
            ctx.gd.vfs(vf.M_FAIL, op, k, st, 0, 0)
            r = ctx.gd.fork("applyChangeset", db, cs)
            ctx.gd.vfs()
            judge(f"{kind} {k} of {cnt} failing (sticky {st})")
            ctx.sig("undo", kind, k, cnt, st)


def rebase_faults(ctx, i):
    """rebase in place: mine or the rebased database, nothing else"""
    import merge
    rng = ctx.rng
    base, theirs, mine, tables, gpkg = merge.gen_triple(rng, ctx)
    if merge.odd_keys(merge.plan(dbgen.dump(base), dbgen.dump(theirs), dbgen.dump(mine))[0]):
        raise vf.Skip()
    db, conf, fin = ctx.path("target.db"), ctx.path("conf.json"), ctx.path("final.db")
    shutil.copyfile(mine, fin)
    r = ctx.gd.fork("rebase", base, theirs, fin, conf)
    if not isinstance(r, vf.Reply) or r.rc != 0:
        ctx.fail("rebase-failed", f"{r}")
    j = Judge(ctx, mine, fin)
    if j.a == j.b:
        raise vf.Skip()
    ctx.gd.vfs(vf.M_OFF, ALLW, -1)
    fresh(mine, db)
    r = ctx.gd.fork("rebase", base, theirs, db, conf)
    n = r.vfs["n"]
    total = sum(n[IDX[x]] for x in ("write", "truncate", "sync", "delete"))
    for k in points(rng, total, 10 if vf.TIER == "quick" else 60):
        for mode in (vf.M_FAIL, vf.M_KILL):
            fresh(mine, db)
            ctx.gd.vfs(mode, ALLW, k, 0, 0, int(rng.random() < 0.5))
            r = ctx.gd.fork("rebase", base, theirs, db, conf)
            ctx.gd.vfs()
            what = f"rebase, {'kill' if mode == vf.M_KILL else 'fail'} operation {k} of {total}"
            st = j.look(db, what)
            if isinstance(r, vf.Reply) and (r.rc == 0) != (st == "mod"):
                ctx.fail("rebase-status", f"{what}: returned {r.rc}, content is {st}")
            ctx.count(f"rebase:{'kill' if mode == vf.M_KILL else 'fail'}:{st}")
            ctx.sig("rebase", mode, k, total)


def any_case(ctx, i):
    return (faults, faults, faults, powerloss, powerloss, locks, diskfull, rebase_faults, conflicts)[i % 9](ctx, i)


def main(only=None):
    c = vf.Check("C08", level="fault_enumeration", rule="every file operation of apply (sampled above the limit) as fault or crash point, rollback journal and WAL; power loss with partial persistence; locks; non-trivial: distinct operation, kind of fault, trace shape",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "SQLite's own journal is trusted; sectors of 512 bytes are written or lost independently, file deletion and creation are persisted in any order with unsynced data"])
    n = 450 if vf.TIER == "quick" else 2500
    c.run_cases(any_case, only or range(n))
    return c.finish()
