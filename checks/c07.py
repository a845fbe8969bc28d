import itertools, shutil, sqlite3
import vf, dbgen
from dbgen import q
from changeset import decode, encode, Entry, UNDEF, INSERT, UPDATE, DELETE, canon, crow
from c02 import read


class Verdict:
    """what an independent reading of entries and target allows"""
    def __init__(self):
        self.must_fail, self.may_fail, self.final, self.why = False, False, None, ""

    def fail(self, why):
        self.must_fail, self.why = True, why
        return self


def exact_match(row, old, pk):
    """does a row carry the recorded old values exactly"""
    return all(o is UNDEF or canon(o) == canon(v) for o, v in zip(old, row))


def sql_match(c, t, cols, key_cols, e):
    """number of rows SQLite takes for the recorded ones (affinity, collation)"""
    w, args = [], []
    for n, o in zip(cols, e.old):
        if o is not UNDEF:
            w.append(f"{q(n)} IS ?")
            args.append(o)
    return c.execute(f"SELECT count(*) FROM {q(t)} WHERE {' AND '.join(w)}", args).fetchone()[0]


def judge(path, entries, ctx):
    """expected outcome, computed on a scratch copy with Python's SQLite"""
    v = Verdict()
    work = ctx.path("model.db")
    shutil.copyfile(path, work)
    c = dbgen.connect(work)
    c.execute("PRAGMA synchronous=OFF")
    try:
        for (n,) in c.execute("SELECT name FROM sqlite_master WHERE type='trigger'").fetchall():
            c.execute(f"DROP TRIGGER {q(n)}")
        by = {}
        for e in entries:
            by.setdefault(e.table, []).append(e)
        finals = []
        for t, es in by.items():
            kind = c.execute("SELECT type, sql FROM sqlite_master WHERE name=?", (t,)).fetchone()
            if kind is None:
                return v.fail(f"no table {t}")
            cols, pk = dbgen.pkcols(c, t)
            if kind[0] != "table" or not any(pk):
                return v.fail(f"{t} is not a table with a key")
            for e in es:
                if len(e.pk) != len(cols) or [bool(p) for p in e.pk] != pk:
                    return v.fail(f"columns of {t} differ")
            rows = {tuple(canon(x) for x, p in zip(r, pk) if p): r for r in c.execute(f"SELECT {','.join(map(q, cols))} FROM {q(t)}")}
            groups = {}
            for e in es:
                if e.op == UPDATE and any(p and n is not UNDEF for p, n in zip(pk, e.new)):
                    v.may_fail = True
                    v.final = None
                    v.why = "key changed"
                    return v
                groups.setdefault(e.key(), []).append(e)
            new = dict(rows)
            for k, g in groups.items():
                if len(g) > 4:
                    v.may_fail, v.why = True, "many entries for a row"
                    return v
                results = set()
                orders = [g] if len(g) == 1 else itertools.permutations(g)
                for n, o in enumerate(orders):
                    cur, ok = rows.get(k), True
                    for e in o:
                        if e.op == INSERT:
                            if cur is not None:
                                ok = False
                                break
                            cur = tuple(e.new)
                        else:
                            if cur is None:
                                ok = False
                                break
                            if not exact_match(cur, e.old, pk):
                                if len(g) > 1 or not sql_match(c, t, cols, pk, e):
                                    ok = False
                                    break
                                v.may_fail, v.why = True, "equal for SQLite only"
                            cur = None if e.op == DELETE else tuple(y if y is not UNDEF else x for x, y in zip(cur, e.new))
                    if ok:
                        results.add(None if cur is None else tuple(map(lambda x: (type(x), x), cur)))
                    elif n == 0 and len(g) > 1:
                        v.may_fail, v.why = True, "order of entries for a row"
                if not results:
                    if len(g) == 1 and g[0].op != INSERT and rows.get(k) is None and sql_match(c, t, cols, pk, g[0]):
                        v.may_fail, v.why = True, "key equal for SQLite only"
                        return v
                    return v.fail(f"{g} does not match row {rows.get(k)}")
                if len(results) > 1:
                    v.may_fail, v.why = True, "ambiguous order"
                    return v
                r = results.pop()
                if r is None:
                    new.pop(k)
                else:
                    new[k] = tuple(x for _, x in r)
            finals.append((t, cols, rows, new))
        # does the resulting content satisfy the constraints?
        c.execute("BEGIN")
        try:
            for t, cols, rows, new in finals:
                c.execute(f"DELETE FROM {q(t)}")
                c.executemany(f"INSERT INTO {q(t)} ({','.join(map(q, cols))}) VALUES ({','.join('?' * len(cols))})", list(new.values()))
        except (sqlite3.IntegrityError, OverflowError) as ex:
            return v.fail(f"constraint: {ex}")
        v.final = dbgen.norm(dbgen.dump_conn(c))
        c.execute("ROLLBACK")
        return v
    finally:
        c.close()


# ---------------------------------------------------------------- making changesets and databases not fit
def mutate_entries(rng, es):
    what = rng.choice(["old", "old", "new", "key", "drop", "dup", "swap", "op", "type", "null", "table", "column", "reverse", "none", "pkmove"])
    es = list(es)
    if not es or what == "none":
        return es, "none"
    i = rng.randrange(len(es))
    e = es[i]
    cp = Entry(e.table, e.pk, e.op, list(e.old) if e.old else None, list(e.new) if e.new else None, e.indirect)

    def other(v):
        if v is UNDEF:
            return v
        return rng.choice([x for x in (0, 1, 2.5, "zz", "A", b"zz", None, "", 12) if canon(x) != canon(v)])
    if what in ("old", "new"):
        row = cp.old if what == "old" and cp.old else cp.new
        if row is None:
            row = cp.old
        c = [j for j in range(len(row)) if not cp.pk[j] and row[j] is not UNDEF]
        if c:
            j = rng.choice(c)
            row[j] = other(row[j])
        es[i] = cp
    elif what == "key":
        ks = [j for j, p in enumerate(cp.pk) if p]
        j = rng.choice(ks)
        row = cp.new if cp.op == INSERT else cp.old
        if isinstance(row[j], int):
            row[j] = max(-2**63, min(2**63 - 1, rng.choice([row[j] + 1, row[j] - 1, row[j] + 1000, 7])))
        elif isinstance(row[j], str):
            row[j] = rng.choice([row[j] + "x", row[j].upper(), ""])
        es[i] = cp
    elif what == "drop":
        del es[i]
    elif what == "dup":
        es.insert(rng.randrange(len(es) + 1), cp)
    elif what == "swap":
        j = rng.randrange(len(es))
        es[i], es[j] = es[j], es[i]
    elif what == "op":
        if cp.op == INSERT:
            es[i] = Entry(cp.table, cp.pk, DELETE, cp.new, None)
        elif cp.op == DELETE:
            es[i] = Entry(cp.table, cp.pk, INSERT, None, cp.old)
        else:
            es[i] = Entry(cp.table, cp.pk, UPDATE, [o if p else n for o, n, p in zip(cp.old, cp.new, cp.pk)], [UNDEF if p else o for o, p in zip(cp.old, cp.pk)])
    elif what == "type":
        row = cp.new or cp.old
        c = [j for j in range(len(row)) if not cp.pk[j] and row[j] is not UNDEF and row[j] is not None]
        if c:
            j = rng.choice(c)
            row[j] = {int: lambda x: float(x) if abs(x) < 2**50 else str(x), float: lambda x: repr(x), str: lambda x: x.encode("utf-8", "surrogateescape"), bytes: lambda x: x.hex()}[type(row[j])](row[j])
        es[i] = cp
    elif what == "null":
        row = cp.new or cp.old
        c = [j for j in range(len(row)) if not cp.pk[j] and row[j] is not UNDEF]
        if c:
            row[rng.choice(c)] = None
        es[i] = cp
    elif what == "table":
        es[i] = Entry(e.table + "_x" if rng.random() < 0.5 else "no such", e.pk, e.op, e.old, e.new)
    elif what == "column":
        n = [list(r) + [1] if r else None for r in (cp.old, cp.new)]
        if rng.random() < 0.5 and len(cp.pk) > 1 and not cp.pk[-1]:
            es[i] = Entry(cp.table, cp.pk[:-1], cp.op, n[0] and n[0][:-2], n[1] and n[1][:-2])
        else:
            es[i] = Entry(cp.table, tuple(cp.pk) + (0,), cp.op, n[0], n[1])
    elif what == "reverse":
        es.reverse()
    elif what == "pkmove":
        pk = list(cp.pk)
        pk = pk[1:] + pk[:1]
        es[i] = Entry(cp.table, pk, cp.op, cp.old, cp.new)
    return es, what


def mutate_db(rng, path, tables, gpkg):
    c = dbgen.connect(path)
    c.execute("PRAGMA synchronous=OFF")
    t = rng.choice(tables)
    T = q(t.name)
    what = rng.choice(["edits", "edits", "edit1", "edit1", "drop", "addcol", "view", "unique", "trigger", "none"] + ([] if gpkg else ["recreate"]))
    try:
        if what in ("edits", "edit1"):
            c.execute("BEGIN")
            dbgen.random_edits(rng, c, t, 1 if what == "edit1" else 6)
            c.execute("COMMIT")
        elif what == "drop":
            c.execute(f"DROP TABLE {T}")
        elif what == "addcol":
            c.execute(f"ALTER TABLE {T} ADD COLUMN extra_col TEXT")
        elif what == "view":
            c.execute(f"DROP TABLE {T}")
            c.execute(f"CREATE VIEW {T} AS SELECT 1 AS fid, 'x' AS name")
        elif what == "unique":
            col = rng.choice(t.cols)[0]
            c.execute(f"CREATE UNIQUE INDEX {q('uq ix')} ON {T} ({q(col)})")
        elif what == "trigger":
            nm = rng.choice(["trg", "it's a trg", 'trg "x"', "%s"])
            c.execute("CREATE TABLE IF NOT EXISTS trglog (m TEXT)")
            for ev in ("INSERT", "UPDATE", "DELETE"):
                c.execute(f"CREATE TRIGGER {q(nm + ev)} {rng.choice(['AFTER', 'BEFORE'])} {ev} ON {T} BEGIN INSERT INTO trglog VALUES ('ran'); END")
        elif what == "recreate":
            # the same columns with other constraints
            t2 = dbgen.Table(t.name, [[n, d, nn or (i not in t.pk and rng.random() < 0.3), f, rng.choice(["", f"CHECK ({q(n)} IS NOT 'a' AND {q(n)} IS NOT 1)", "UNIQUE"]) if i not in t.pk and rng.random() < 0.4 else ex]
                                      for i, (n, d, nn, f, ex) in enumerate(t.cols)], t.pk if rng.random() < 0.85 else [], t.tail if rng.random() < 0.9 else "", False)
            if not t2.pk:
                t2.tail = ""
            c.execute("BEGIN")
            cols = ",".join(q(x[0]) for x in t.cols)
            rows = c.execute(f"SELECT {cols} FROM {T}").fetchall()
            c.execute(f"DROP TABLE {T}")
            c.execute(t2.ddl())
            for r in rows:
                try:
                    c.execute(f"INSERT INTO {T} ({cols}) VALUES ({','.join('?' * len(r))})", r)
                except sqlite3.IntegrityError:
                    pass
            c.execute("COMMIT")
    except sqlite3.OperationalError:
        if c.in_transaction:
            c.execute("ROLLBACK")
    except sqlite3.IntegrityError:
        what = "none"
        if c.in_transaction:
            c.execute("ROLLBACK")
    c.close()
    return what


def run(ctx, target, es, cs, label):
    """apply es to a copy of target and compare with the verdict; returns outcome"""
    rng = ctx.rng
    v = judge(target, es, ctx)
    out = ctx.path("out.db")
    shutil.copyfile(target, out)
    before = dbgen.full_dump(out)
    with open(cs, "wb") as f:
        f.write(encode(es))
    r = ctx.call("applyChangeset", out, cs)
    after = dbgen.full_dump(out)
    if r.rc != 0:
        if after != before:
            d = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
            ctx.fail("partial", f"{label}: apply failed ({r.errors()[-1:]}) and changed {d[:4]}")
        if not v.must_fail and not v.may_fail:
            ctx.fail("refused", f"{label}: every entry fits the database, but apply failed: {r.errors()[-2:]} {r.warnings()[-1:]}")
        if not r.errors():
            ctx.fail("no-error-logged", f"{label}: failure without an error message")
    else:
        if v.must_fail:
            ctx.fail("accepted", f"{label}: apply succeeded although {v.why[:300]}")
        d = dbgen.dump(out)
        if v.final is not None and dbgen.norm(d) != v.final:
            a = {t: v.final[t] for t in v.final if v.final[t] != dbgen.norm(d).get(t)}
            ctx.fail("wrong-result", f"{label}: apply succeeded with another result in {list(a)[:3]}: {str([(k, x) for t in a if isinstance(a[t], dict) for k, x in a[t].items() if dbgen.norm(d)[t].get(k) != x][:2])[:300]} ({v.why})")
        if before["#schema"] != after["#schema"]:
            ctx.fail("schema", f"{label}: apply changed the schema")
        if before.get("trglog") != after.get("trglog"):
            ctx.fail("trigger-ran", f"{label}: apply ran a trigger of the database")
    if dbgen.integrity(out) != [("ok",)]:
        ctx.fail("integrity", f"{label}: integrity_check fails")
    out = "fail" if r.rc else "ok"
    ctx.count(f"{out}:{'must_fail' if v.must_fail else 'may_fail' if v.may_fail else 'fits'}")
    return out, v


def case(ctx, i):
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {})
    cs = ctx.path("cs.diff")
    ctx.ok("createChangeset", base, mod, cs)
    es = decode(read(cs))
    target = ctx.path("target.db")
    if rng.random() < 0.5:
        shutil.copyfile(base, target)
        wd = "none"
        es, we = mutate_entries(rng, es)
        if rng.random() < 0.3:
            es, we2 = mutate_entries(rng, es)
            we += "+" + we2
    else:
        shutil.copyfile(rng.choice([base, base, base, mod]), target)
        wd, we = mutate_db(rng, target, tables, gpkg), "none"
    outcome, v = run(ctx, target, es, cs, f"changeset {we}, database {wd}")
    ctx.count(f"mutation:{we if '+' not in we else 'two'}/{wd}:{outcome}")
    if es:
        ctx.sig(we, wd, outcome, v.why, [t.ddl() for t in tables])
    ctx.sample({"mutation": [we, wd], "outcome": outcome, "why": v.why[:200]})


def positions(ctx, i):
    """one conflict at each position of the changeset in turn"""
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"edits": 6, "rows": 12})
    cs = ctx.path("cs.diff")
    ctx.ok("createChangeset", base, mod, cs)
    es = decode(read(cs))[:25]
    for p in range(len(es)):
        e = es[p]
        target = ctx.path("target.db")
        shutil.copyfile(base, target)
        c = dbgen.connect(target)
        T = q(e.table)
        cols, pk = dbgen.pkcols(c, e.table)
        try:
            if e.op == INSERT:
                how = "key exists"
                c.execute(f"INSERT INTO {T} ({','.join(map(q, cols))}) VALUES ({','.join('?' * len(cols))})", list(e.new))
            else:
                w = " AND ".join(f"{q(n)} IS ?" for n, b in zip(cols, pk) if b)
                key = [o for o, b in zip(e.old, pk) if b]
                if rng.random() < 0.5 or all(pk):
                    how = "row missing"
                    c.execute(f"DELETE FROM {T} WHERE {w}", key)
                else:
                    how = "row differs"
                    j = rng.choice([j for j in range(len(cols)) if not pk[j] and e.old[j] is not UNDEF] or [j for j in range(len(cols)) if not pk[j]])
                    c.execute(f"UPDATE {T} SET {q(cols[j])}=? WHERE {w}", [rng.choice(["other", b"other"])] + key)
        except sqlite3.IntegrityError:
            c.close()
            continue
        c.close()
        outcome, v = run(ctx, target, es, cs, f"{how} at entry {p} of {len(es)}")
        ctx.count(f"position:{how}:{outcome}")
        ctx.sig("position", how, p, len(es), e.op)


def raising(ctx, i):
    """GeoPackage triggers stay active during apply: one that refuses a row has to make apply fail"""
    rng = ctx.rng
    base, mod, cs = ctx.path("base.db"), ctx.path("mod.db"), ctx.path("cs.diff")
    n = rng.randint(3, 10)
    bad = rng.randint(1, n)
    c = dbgen.connect(base)
    c.execute("CREATE TABLE t (fid INTEGER PRIMARY KEY, v TEXT)")
    c.executemany("INSERT INTO t VALUES (?, 'a')", [(k,) for k in range(1, n + 1, 2)])
    c.close()
    shutil.copyfile(base, mod)
    c = dbgen.connect(mod)
    c.execute("UPDATE t SET v='b'")
    c.executemany("INSERT INTO t VALUES (?, 'new')", [(k,) for k in range(2, n + 1, 2)])
    c.close()
    ctx.ok("createChangeset", base, mod, cs)
    act = rng.choice(["ABORT", "FAIL", "ROLLBACK", "IGNORE"])
    c = dbgen.connect(base)
    for ev in ("INSERT", "UPDATE"):
        c.execute(f"CREATE TRIGGER gpkg_refuse_{ev} BEFORE {ev} ON t WHEN NEW.fid={bad} BEGIN SELECT RAISE({act}{'' if act == 'IGNORE' else ', ' + repr('no')}); END")
    c.close()
    before = dbgen.full_dump(base)
    r = ctx.call("applyChangeset", base, cs)
    if r.rc == 0:
        ctx.fail("accepted", f"a GeoPackage trigger refused a row (RAISE({act})), apply succeeded")
    if dbgen.full_dump(base) != before:
        ctx.fail("partial", f"a GeoPackage trigger refused a row (RAISE({act})), apply failed and changed the database")
    ctx.count("raise:" + act)
    ctx.sig("raise", act, bad, n)


def resolution(ctx, i):
    """constraints that declare their own conflict resolution"""
    rng = ctx.rng
    act = ["ABORT", "FAIL", "ROLLBACK", "IGNORE", "REPLACE"][i % 5]
    base, mod, cs = ctx.path("base.db"), ctx.path("mod.db"), ctx.path("cs.diff")
    c = dbgen.connect(base)
    c.execute(f"CREATE TABLE t (fid INTEGER PRIMARY KEY, v TEXT UNIQUE ON CONFLICT {act})")
    c.executemany("INSERT INTO t VALUES (?, ?)", [(k, "v%d" % k) for k in range(1, 6)])
    c.close()
    shutil.copyfile(base, mod)
    c = dbgen.connect(mod)
    up = (i // 5) % 2
    c.execute("UPDATE t SET v='taken' WHERE fid=2" if up else "INSERT INTO t VALUES (10, 'taken')")
    c.execute("DELETE FROM t WHERE fid=4")
    c.execute("UPDATE t SET v='five' WHERE fid=5")
    c.close()
    ctx.ok("createChangeset", base, mod, cs)
    c = dbgen.connect(base)
    c.execute("UPDATE t SET v='taken' WHERE fid=1")
    c.close()
    before = dbgen.full_dump(base)
    r = ctx.call("applyChangeset", base, cs)
    if r.rc == 0:
        ctx.fail("on-conflict-replace" if act == "REPLACE" else "accepted", f"a unique value of a table with ON CONFLICT {act} is taken by another row, but apply succeeded")
    if dbgen.full_dump(base) != before:
        ctx.fail("partial", f"ON CONFLICT {act}: apply failed and changed the database")
    ctx.count("on_conflict:" + act)
    ctx.sig("on_conflict", act, up)


def keychange(ctx, i):
    """updates (written by other programs) that give rows other keys"""
    rng = ctx.rng
    ddl, npk, text = rng.choice([("id INTEGER PRIMARY KEY, v TEXT, w", 1, 0), ("id INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, v TEXT, w", 1, 0),
                                 ("id INT PRIMARY KEY, v TEXT, w", 1, 0), ("id TEXT PRIMARY KEY NOT NULL, v TEXT, w", 1, 1),
                                 ("a INTEGER, id INTEGER, v TEXT, w, PRIMARY KEY (a, id)", 2, 0), ("id TEXT, b TEXT, v TEXT, w, PRIMARY KEY (id, b)) WITHOUT ROWID", 2, 1)])
    target, cs, out = ctx.path("t.db"), ctx.path("cs.diff"), ctx.path("out.db")
    n = rng.randint(1, 8)

    def key(k):
        ks = [1, k] if npk == 2 and not text else [k, 1] if npk == 2 else [k]
        return tuple("k%d" % x for x in ks) if text else tuple(ks)
    rows = [key(k) + (rng.choice(["a", None, ""]), rng.choice([1, 2.5, b"b", None])) for k in range(1, n + 1)]
    ncol = npk + 2
    pk = tuple(list(range(1, npk + 1)) + [0, 0])
    c = dbgen.connect(target)
    c.execute(f"CREATE TABLE t ({ddl}" + ("" if ddl.endswith("ROWID") else ")"))
    c.executemany(f"INSERT INTO t VALUES ({','.join('?' * ncol)})", rows)
    c.close()
    taken = rng.random() < 0.25 and n > 1
    moved = sorted(rng.sample(range(n), rng.randint(1, n - 1 if taken else n)))
    final, es = list(rows), []
    for m in moved:
        k2 = key(m + 1 + 1000)
        if taken and m == moved[-1]:
            k2 = rows[rng.choice([x for x in range(n) if x not in moved])][:npk]
        old = [x if j < npk else UNDEF for j, x in enumerate(rows[m])]
        new = [(y if x != y else UNDEF) for x, y in zip(rows[m][:npk], k2)] + [UNDEF, UNDEF]
        fin = list(k2) + list(rows[m][npk:])
        for j in range(npk, ncol):
            if rng.random() < 0.3:
                old[j], new[j] = rows[m][j], "changed"
                fin[j] = "changed"
        es.append(Entry("t", pk, UPDATE, old, new))
        final[m] = tuple(fin)
    rng.shuffle(es)
    with open(cs, "wb") as f:
        f.write(encode(es))
    shutil.copyfile(target, out)
    r = ctx.call("applyChangeset", out, cs)
    c = dbgen.connect(out)
    now = c.execute("SELECT * FROM t").fetchall()
    c.close()
    want = rows if r.rc else final
    if r.rc and not taken:
        ctx.fail("refused", f"keys of {len(es)} rows change to free ones in ({ddl}), apply failed: {r.errors()[-1:]}")
    if not r.rc and taken:
        ctx.fail("accepted", f"a key changes to one in use in ({ddl}), apply succeeded")
    if sorted(now, key=repr) != sorted(want, key=repr):
        ctx.fail("partial" if r.rc else "wrong-result", f"updates that change keys in ({ddl}): apply returned {r.rc} and left {sorted(now, key=repr)[:4]}, not {sorted(want, key=repr)[:4]}")
    ctx.count(f"key_change:{'taken' if taken else 'free'}:{'fail' if r.rc else 'ok'}")
    ctx.sig("key_change", ddl, len(es), taken, r.rc)


def any_case(ctx, i):
    if i % 25 == 2:
        return keychange(ctx, i)
    if i < 10:
        return resolution(ctx, i)
    if i % 25 == 0:
        return raising(ctx, i)
    return positions(ctx, i) if i % 25 == 1 else case(ctx, i)


def main(only=None):
    c = vf.Check("C07", rule="changesets and databases made not to fit (values, keys, columns, tables, constraints, duplicates, triggers), conflict at every position; outcome compared with an independent judgement. Non-trivial: mutation, schema, reason and outcome",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "constraints are those SQLite 3.45.1 enforces; foreign keys are not enforced"])
    n = 4000 if vf.TIER == "quick" else 25000
    c.run_cases(any_case, only or range(n))
    return c.finish()
