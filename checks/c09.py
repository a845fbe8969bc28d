import collections, math, shutil, sqlite3
import vf, dbgen, merge, crafted
from dbgen import q
from changeset import decode, encode, conformance, FormatError, crow, canon
from c02 import read, check_entries
from c03 import form


def conform(ctx, p, what, noop=False):
    b = read(p)
    try:
        es, bad = conformance(b, noop)
    except FormatError as e:
        ctx.fail("undecodable", f"{what}: {e}")
    if bad:
        ctx.fail("format", f"{what}: {bad[:3]}")
    # reencoding with the shortest lengths has to give the same bytes
    if encode(es) != b:
        ctx.fail("not-canonical", f"{what}: the bytes are not the documented encoding of its entries")
    ctx.count("checked:" + what)
    ctx.count("entries", len(es))
    return es


def lit(v):
    if v is None:
        return "NULL"
    if isinstance(v, int):
        return str(v) if v != -2**63 else "(-9223372036854775807-1)"
    if isinstance(v, float):
        return ("9e999" if v > 0 else "-9e999") if math.isinf(v) else repr(v)
    if isinstance(v, str):
        b = v.encode("utf-8", "surrogateescape")
        return "'" + v.replace("'", "''") + "'" if "\0" not in v and b.isascii() else f"CAST(x'{b.hex()}' AS TEXT)"
    return f"x'{v.hex()}'"


def sqls(rng, path, tables, n):
    """random statements, with their values written out; checked on a scratch copy"""
    out = []
    tmp = path + ".try"
    shutil.copyfile(path, tmp)
    c = dbgen.connect(tmp)
    c.execute("BEGIN")
    for _ in range(n):
        t = rng.choice(tables)
        r = rng.random()
        cols = ",".join(q(t.cols[i][0]) for i in sorted(t.pk))
        if r < 0.4:
            row = dbgen.new_row(rng, t)
            s = f"INSERT INTO {q(t.name)} ({','.join(q(x[0]) for x in t.cols)}) VALUES ({','.join(map(lit, row))})"
        else:
            keys = c.execute(f"SELECT {cols} FROM {q(t.name)} ORDER BY {cols}").fetchall()
            if not keys:
                continue
            k = rng.choice(keys)
            w = " AND ".join(f"{q(t.cols[i][0])} IS {lit(v)}" for i, v in zip(sorted(t.pk), k))
            vals = [i for i in range(len(t.cols)) if i not in t.pk]
            if r < 0.6 or not vals:
                s = f"DELETE FROM {q(t.name)} WHERE {w}"
            else:
                sel = rng.sample(vals, rng.choice([1, len(vals)]))
                s = f"UPDATE {q(t.name)} SET " + ",".join(f"{q(t.cols[i][0])}={lit(dbgen.value(rng, t.cols[i][3], t.cols[i][2]))}" for i in sel) + f" WHERE {w}"
        try:
            c.execute(s)
            out.append(s)
        except sqlite3.IntegrityError:
            pass
    c.execute("ROLLBACK")
    c.close()
    return out


def bform(es):
    """entries with key flags as yes or no: SQLite writes the position in the key"""
    return collections.Counter((e.table, tuple(bool(p) for p in e.pk), e.op, crow(e.old), crow(e.new)) for e in es)


def for_session(p, db):
    """the changeset with key flags as SQLite's session extension wants them: positions in the key (see known finding)"""
    c = dbgen.connect(db)
    es = decode(read(p))
    pos = {}
    for e in es:
        if e.table not in pos:
            pos[e.table] = tuple(r[0] for r in c.execute("SELECT pk FROM pragma_table_info(?) ORDER BY cid", (e.table,)))
        e.pk = pos[e.table]
    c.close()
    with open(p + ".sess", "wb") as f:
        f.write(encode(es))
    return p + ".sess"


def composite(ctx, i):
    base, mod, cs, out = (ctx.path(x) for x in ("base.db", "mod.db", "cs.diff", "out.db"))
    c = dbgen.connect(base)
    c.execute("CREATE TABLE t (a INTEGER, b INTEGER, v TEXT, PRIMARY KEY (a, b))")
    c.execute("INSERT INTO t VALUES (1, 2, 'x')")
    c.close()
    shutil.copyfile(base, mod)
    c = dbgen.connect(mod)
    c.execute("UPDATE t SET v='y'")
    c.close()
    ctx.ok("createChangeset", base, mod, cs)
    shutil.copyfile(base, out)
    r = ctx.gd.cmd("session_apply", out, cs)
    if r["rc"] or nokeys(dbgen.dump(out)) != nokeys(dbgen.dump(mod)):
        ctx.fail("session-composite-key", f"SQLite does not apply a changeset of a table with a two column key: {r}")
    ctx.sig("composite")


def nokeys(d):
    return {t: v for t, v in dbgen.norm(d).items() if isinstance(v, dict)}


def written(ctx, i):
    """what geodiff writes"""
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"wide": True, "generated": False})
    cs, inv, dump = ctx.path("cs.diff"), ctx.path("inv.diff"), ctx.path("dump.diff")
    ctx.ok("createChangeset", base, mod, cs)
    es = conform(ctx, cs, "created")
    ctx.ok("invertChangeset", cs, inv)
    conform(ctx, inv, "inverted")
    ctx.ok("dumpData", "sqlite", "", mod, dump)
    conform(ctx, dump, "dump")
    # SQLite's session extension applies them with the same effect
    for a, b, p in ((base, mod, cs), (mod, base, inv)):
        out = ctx.path("sess.db")
        shutil.copyfile(a, out)
        r = ctx.gd.cmd("session_apply", out, for_session(p, a))
        if r["rc"] or r["conflicts"]:
            ctx.fail("session-refuses", f"SQLite's session extension: {r} for {p.rsplit('/', 1)[1]}")
        if nokeys(dbgen.dump(out)) != nokeys(dbgen.dump(b)):
            ctx.fail("session-differs", "SQLite applied the changeset with another effect: " + dbgen.diffdesc(dbgen.dump(out), dbgen.dump(b)))
        ctx.count("session_applied")
    if es:
        ctx.sig("written", sorted(map(repr, form(es))))
    ctx.sample({"tables": [t.ddl() for t in tables], "entries": len(es)})


def rebased(ctx, i):
    rng = ctx.rng
    base, theirs, mine, tables, gpkg = merge.gen_triple(rng, ctx, {"generated": False})
    if merge.odd_keys(merge.plan(dbgen.dump(base), dbgen.dump(theirs), dbgen.dump(mine))[0]):
        raise vf.Skip()
    t2, reb, conf = ctx.path("t2.diff"), ctx.path("reb.diff"), ctx.path("conf.json")
    ctx.ok("createChangeset", base, theirs, t2)
    ctx.ok("createRebasedChangeset", base, mine, t2, reb, conf)
    es = conform(ctx, reb, "rebased", True)
    a, b = ctx.path("a.db"), ctx.path("b.db")
    shutil.copyfile(theirs, a)
    shutil.copyfile(theirs, b)
    r = ctx.gd.cmd("session_apply", a, for_session(reb, a))
    if r["rc"] or r["conflicts"]:
        ctx.fail("session-refuses", f"SQLite's session extension: {r} for a rebased changeset")
    ctx.ok("applyChangeset", b, reb)
    if nokeys(dbgen.dump(a)) != nokeys(dbgen.dump(b)):
        ctx.fail("session-differs", "SQLite applied the rebased changeset with another effect: " + dbgen.diffdesc(dbgen.dump(a), dbgen.dump(b)))
    if es:
        ctx.sig("rebased", sorted(map(repr, form(es))))


def recorded(ctx, i):
    """what SQLite's session extension writes (without REAL columns: SQLite 3.45.1 mixes up 1.0 and 1 there)"""
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"generated": False, "edits": 1, "noreal": True})
    st = sqls(rng, base, tables, rng.choice([1, 3, 10, 40]))
    sess, cs, out = ctx.path("sess.db"), ctx.path("sess.diff"), ctx.path("out.db")
    shutil.copyfile(base, sess)
    r = ctx.gd.cmd("session_record", sess, ";\n".join(st), cs)
    if r["rc"]:
        raise vf.HarnessError(f"session_record: {bytes.fromhex(r['err'])}")
    a, b = dbgen.dump(base), dbgen.dump(sess)
    es = decode(read(cs))
    # geodiff's own changeset of the same two databases has the same entries
    own = ctx.path("own.diff")
    ctx.ok("createChangeset", base, sess, own)
    if bform(decode(read(own))) != bform(es):
        x, y = bform(es) - bform(decode(read(own))), bform(decode(read(own))) - bform(es)
        ctx.fail("differs-from-session", f"recorded by SQLite only {list(x)[:2]}, by geodiff only {list(y)[:2]}")
    shutil.copyfile(base, out)
    ctx.ok("applyChangeset", out, cs, key="session-changeset-refused")
    d = dbgen.dump(out)
    if nokeys(d) != nokeys(b):
        ctx.fail("session-changeset-differs", "a changeset recorded by SQLite applied with another effect: " + dbgen.diffdesc(d, b))
    n = ctx.call("changesCount", cs).rc
    if n != len(es):
        ctx.fail("count", f"changesCount {n} for {len(es)} recorded changes")
    if ctx.call("hasChanges", cs).rc != int(bool(es)):
        ctx.fail("haschanges", "hasChanges is wrong for a recorded changeset")
    inv = ctx.path("inv.diff")
    ctx.ok("invertChangeset", cs, inv)
    ctx.ok("applyChangeset", out, inv)
    if nokeys(dbgen.dump(out)) != nokeys(a):
        ctx.fail("session-invert", "the inverse of a recorded changeset does not restore the database")
    ctx.count("recorded", len(es))
    if es:
        ctx.sig("recorded", sorted(map(repr, form(es))))


def crafted_case(ctx, i):
    """well-formed files of any shape: read, inverted, and written again with identical bytes"""
    rng = ctx.rng
    es = crafted.entries(rng, keys=i % 10 != 4)
    cs, inv, inv2 = ctx.path("cs.diff"), ctx.path("inv.diff"), ctx.path("inv2.diff")
    b = encode(es)
    open(cs, "wb").write(b)
    ctx.ok("invertChangeset", cs, inv)
    ctx.ok("invertChangeset", inv, inv2)
    if i % 10 == 4:       # the session extension never records a changed key
        conform(ctx, inv, "inverted")
        conform(ctx, inv2, "inverted")
    if form(decode(read(inv2))) != form(es):
        ctx.fail("roundtrip", "reading and writing a well-formed changeset lost something")
    if ctx.call("changesCount", cs).rc != len(es):
        ctx.fail("count", "changesCount is wrong")
    if es:
        ctx.sig("crafted", sorted(map(repr, form(es))))


def any_case(ctx, i):
    if i == 0:
        return composite(ctx, i)
    return (written, rebased, recorded, recorded, crafted_case)[i % 5](ctx, i)


def main(only=None):
    c = vf.Check("C09", rule="files written by create, invert, dump and rebase decoded and re-encoded independently and applied by SQLite's session extension; files recorded by the session extension read by geodiff. Non-trivial: distinct sets of entries",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "SQLite 3.45.1's session extension is the reference for interoperation; tables have no generated columns there"])
    n = 2500 if vf.TIER == "quick" else 20000
    c.run_cases(any_case, only or range(n))
    return c.finish()
