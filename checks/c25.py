import collections, os, shutil
import vf, build, dbgen, pg, merge
from changeset import decode, conformance, canon, crow, UNDEF
from c02 import read, check_entries


def rows_of(d):
    return {t: ({k: crow(r) for k, r in x["rows"].items()} if "rows" in x else list(map(repr, x["list"]))) for t, x in d.items()}


def same(ctx, d, want, what):
    a, b = rows_of(d), rows_of(want)
    if a != b:
        bad = [t for t in b if a.get(t) != b[t]] or [t for t in a if t not in b]
        x, y = a.get(bad[0]), b.get(bad[0])
        det = ""
        if isinstance(x, dict) and isinstance(y, dict):
            det = str([(k, x.get(k), y.get(k)) for k in {*x, *y} if x.get(k) != y.get(k)][:2])
        ctx.fail("rows-differ", f"{what}: table {bad[0]!r} differs (key, found, expected): {det[:400]}")


def clean(ctx, what):
    s = ctx.gd.cmd("pgstat")
    if s["conns"] or s["results"]:
        ctx.fail("leak", f"{what}: {s['conns']} connections and {s['results']} results were not freed")
    return s


def sequence_free(ctx, db, schema, t, what):
    """the next key of the sequence is free"""
    s = db.seq(schema, t.name)
    if not s:
        ctx.fail("sequence-gone", f"{what}: {t.name!r} has no sequence")
    nxt = s[0] + (s[1] == "t")
    keys = [k[0][1] for k in db.dump(schema)[t.name]["rows"]]
    if keys and nxt <= max(keys):
        ctx.fail("sequence-stale", f"{what}: the sequence of {t.name!r} gives {nxt} next, the highest key is {max(keys)}")
    ctx.count("sequence_checked")


def case(ctx, i):
    rng = ctx.rng
    db, s1, s2, tables, r1, r2 = pg.gen_pair(rng, ctx)
    A, B = db.dump(s1), db.dump(s2)
    before = db.raw()
    info = db.info
    cs = ctx.path("cs")
    ctx.ok("createChangesetEx", "postgres", info, s1, s2, cs)
    clean(ctx, "createChangesetEx")
    if db.raw() != before:
        ctx.fail("input-altered", "createChangesetEx changed the database")
    es = check_entries(ctx, read(cs), A, B, "changeset of two schemas")
    bad = conformance(read(cs))[1]
    if bad:
        ctx.fail("not-minimal", str(bad[:3]))
    dump = ctx.path("dump")
    ctx.ok("dumpData", "postgres", info, s1, dump)
    empty = {t: {**x, "rows": {}} for t, x in A.items() if "rows" in x}
    check_entries(ctx, read(dump), empty, {t: A[t] for t in empty}, "dump of a schema")
    inv = ctx.path("inv")
    ctx.ok("invertChangeset", cs, inv)
    # cross-application to SQLite
    lite = ctx.path("lite.db")
    lt = [t for t in tables]
    pg.sqlite_db(lite, lt, r1)
    L0 = dbgen.dump(lite)
    same(ctx, L0, A, "set-up")
    ctx.ok("applyChangeset", lite, cs)
    LB = dbgen.dump(lite)
    wantB = {t: (B[t] if "rows" in B[t] else A[t]) for t in B}
    same(ctx, LB, wantB, "changeset of schemas applied to SQLite")
    # apply to the base schema (or to it by a changeset made by SQLite)
    use = cs
    if rng.random() < 0.4:
        base, mod, use = ctx.path("a.db"), ctx.path("b.db"), ctx.path("lite.cs")
        pg.sqlite_db(base, tables, r1)
        pg.sqlite_db(mod, tables, r2)
        ctx.ok("createChangeset", base, mod, use)
        ctx.count("sqlite_changeset_applied")
    m2 = {t: db.dump(s2)[t] for t in B}
    ctx.ok("applyChangesetEx", "postgres", info, s1, use)
    clean(ctx, "applyChangesetEx")
    same(ctx, db.dump(s1), wantB, "changeset applied to the base schema")
    same(ctx, db.dump(s2), m2, "other schema after apply")
    for t in tables:
        if t.serial and (r1[t.name] or any(e.table == t.name and e.op == 18 for e in es)):
            sequence_free(ctx, db, s1, t, "after apply")
    ctx.ok("applyChangesetEx", "postgres", info, s1, inv)
    same(ctx, db.dump(s1), A, "inverse applied")
    for e in es:
        ctx.count("entry:%d" % e.op)
        for t in tables:
            if t.name == e.table:
                for j, c in enumerate(t.cols):
                    if e.op == 23 and e.new[j] is not None and repr(e.new[j]) != "UNDEF":
                        ctx.count("changed:" + c[3])
    if es:
        ctx.sig(sorted(map(repr, dbgen.entries_set(es))))
    ctx.sample({"tables": [t.ddl(s1) for t in tables], "entries": [repr(e)[:200] for e in es[:3]]})


def ts_case(ctx, i):
    """timestamps with fractions of a second: differences below a second give no entry"""
    rng = ctx.rng
    db = pg.Db(ctx)
    db.exec('CREATE SCHEMA a; CREATE SCHEMA b;' + ''.join(f'CREATE TABLE {s}.t (id integer NOT NULL, at timestamp, v text, PRIMARY KEY (id));' for s in 'ab'))
    n = rng.randint(1, 6)
    for k in range(n):
        fr = [rng.choice(["", ".25", ".5", ".125"]) for _ in 'ab']
        v = [rng.choice("xy") for _ in 'ab']
        sec = [10, rng.choice([10, 10, 11])]
        for s, f, x, c in zip('ab', fr, v, sec):
            db.exec(f"INSERT INTO {s}.t (id, at, v) VALUES ({k}, '2020-01-01 10:00:{c}{f}', '{x}')")
    A, B = db.dump("a"), db.dump("b")
    cs = ctx.path("cs")
    ctx.ok("createChangesetEx", "postgres", db.info, "a", "b", cs)
    es = check_entries(ctx, read(cs), A, B, "changeset of timestamps")
    for e in es:
        if e.op == 23 and all(repr(v) == "UNDEF" for v in e.new):
            ctx.fail("noop-update", "an update without changed values was written")
    ctx.sig("ts", repr(A), repr(B))
    ctx.count("fractional_timestamps")


def citext_case(ctx, i):
    """keys that do not depend on the case of letters: a key written differently is a change of the row, not another row"""
    rng = ctx.rng
    comp = rng.random() < 0.4
    cols = [("k", "citext")] + ([("n", "integer")] if comp else []) + [("v", "text"), ("c", "citext")]
    pk = [x[0] in ("k", "n") for x in cols]
    if rng.random() < 0.3:
        cols, pk = cols[::-1], pk[::-1]
    db = pg.Db(ctx)
    case = lambda w: "".join(rng.choice([x.lower(), x.upper()]) for x in w)
    rows = []
    for s in "ab":
        m = {}
        for _ in range(rng.randint(0, 8)):
            k, n = case(rng.choice(["ab", "abc", "x y", "it's", "z"])), rng.randint(1, 2)
            v = {"k": k, "n": n, "v": rng.choice([None, "v", "V", case("text")]), "c": rng.choice([None, case("cc"), case("dd")])}
            m[(k.lower(), n if comp else 0)] = [v[x[0]] for x in cols]
        if s == "b":          # rows of the other schema, written in another way
            for kk, r in rows[0].items():
                if rng.random() < 0.7:
                    r = list(r)
                    for j in rng.sample(range(len(cols)), rng.choice([0, 1, len(cols)])):
                        if cols[j][1] != "integer" and r[j] is not None:
                            r[j] = case(r[j])
                    m[kk] = r
        rows.append(m)
        db.exec(f"CREATE SCHEMA {s}; CREATE TABLE {s}.t ({', '.join(f'{c} {t}' for c, t in cols)}, PRIMARY KEY ({', '.join(c for (c, _), p in zip(cols, pk) if p)}));")
        for r in m.values():
            db.exec(f"INSERT INTO {s}.t ({', '.join(c for c, _ in cols)}) VALUES ({', '.join('NULL' if x is None else str(x) if isinstance(x, int) else pg.ql(x) for x in r)})")
    a, b = rows
    want = set()
    for k in set(a) | set(b):
        if k not in b:
            want.add((9, tuple(a[k]), None))
        elif k not in a:
            want.add((18, None, tuple(b[k])))
        elif a[k] != b[k]:
            want.add((23, tuple(x if p or x != y else UNDEF for x, y, p in zip(a[k], b[k], pk)), tuple(y if x != y else UNDEF for x, y in zip(a[k], b[k]))))
    cs, inv = ctx.path("cs"), ctx.path("inv")
    ctx.ok("createChangesetEx", "postgres", db.info, "a", "b", cs)
    es = decode(read(cs))
    got = [(e.op, tuple(e.old) if e.old else None, tuple(e.new) if e.new else None) for e in es]
    if set(map(repr, got)) != set(map(repr, want)) or len(got) != len(want):
        ctx.fail("citext-keys", f"changeset of {a} and {b}: {sorted(map(repr, got))[:5]} instead of {sorted(map(repr, want))[:5]}")
    A, B = db.dump("a"), db.dump("b")
    ctx.ok("applyChangesetEx", "postgres", db.info, "a", cs)
    same(ctx, db.dump("a"), B, "changeset with case-insensitive keys applied")
    ctx.ok("invertChangeset", cs, inv)
    ctx.ok("applyChangesetEx", "postgres", db.info, "a", inv)
    same(ctx, db.dump("a"), A, "inverse with case-insensitive keys applied")
    clean(ctx, "applyChangesetEx")
    ctx.count("citext_key_changes", sum(k in b and any(x != y and p for x, y, p in zip(a[k], b[k], pk)) for k in a))
    ctx.sig("citext", repr(a), repr(b))


def schema_case(ctx, i):
    """schemas that differ are refused"""
    rng = ctx.rng
    db = pg.Db(ctx)
    s1, s2 = pg.names(rng, pg.SCHEMAS, 2)
    tables = [pg.gen_table(rng, n) for n in pg.names(rng, pg.NAMES, rng.choice([1, 2, 3]))]
    rows = {t.name: pg.gen_rows(rng, t, rng.choice([0, 4])) for t in tables}
    db.create(s1, tables, rows)
    import copy
    t2 = copy.deepcopy(tables)
    t = rng.choice(t2)
    kinds = ["drop_table", "new_table", "rename_table", "new_column", "rename_column", "notnull", "type"]
    if len(t.cols) > 1:
        kinds += ["drop_column", "swap_columns"]
    if t.gtype:
        kinds += ["geometry_type", "srid"] * 2
    if t.pk:
        kinds += ["pk"]
    kind = rng.choice(kinds)
    idx = [j for j in range(len(t.cols)) if j not in t.pk and t.cols[j][3] != "geom"]
    if kind == "drop_table":
        t2.remove(t)
    elif kind == "new_table":
        t2.append(pg.gen_table(rng, pg.names(rng, [n for n in pg.NAMES if n not in [x.name for x in t2]], 1)[0]))
    elif kind == "rename_table":
        t.name += "x"
    elif kind == "new_column":
        t.cols.append(["added", "text", False, "text"])
    elif kind == "rename_column":
        rng.choice(t.cols)[0] += "x"
    elif kind in ("notnull", "type", "drop_column"):
        if not idx:
            raise vf.Skip()
        j = rng.choice(idx)
        if kind == "notnull":
            t.cols[j][2] = not t.cols[j][2]
        elif kind == "type":
            old = t.cols[j][3]
            t.cols[j][1], t.cols[j][3] = rng.choice([x for x in pg.TYPES if x[0] != t.cols[j][1]])
        else:
            del t.cols[j]
            t.pk = [p - (p > j) for p in t.pk]
    elif kind == "swap_columns":
        a, b = rng.sample(range(len(t.cols)), 2)
        t.cols[a], t.cols[b] = t.cols[b], t.cols[a]
        t.pk = [{a: b, b: a}.get(p, p) for p in t.pk]
    elif kind == "pk":
        t.pk = []
    elif kind in ("geometry_type", "srid"):
        if kind == "srid":
            t.srid = rng.choice([s for s in (4326, 3857, 40001, 102100) if s != t.srid])
        else:
            t.gtype = rng.choice([g for g in (1, 2, 3) if g != t.gtype])
        g = [c for c in t.cols if c[3] == "geom"][0]
        g[1] = f"geometry({pg.GEOMS[t.gtype]}{t.dim}, {t.srid})"
    t.indexes = []
    try:
        db.create(s2, t2, {x.name: pg.gen_rows(rng, x, rng.choice([0, 4])) for x in t2})
    except RuntimeError:
        raise vf.Skip()
    before = db.raw()
    r = ctx.call("createChangesetEx", "postgres", db.info, s1, s2, ctx.path("cs"))
    if r.rc != 1:
        ctx.fail("schema-accepted:" + kind, f"schemas that differ ({kind}) gave return value {r.rc}")
    if not r.errors():
        ctx.fail("no-message", f"schemas that differ ({kind}) refused without an error message")
    r = ctx.call("createChangesetEx", "postgres", db.info, s2, s1, ctx.path("cs2"))
    if r.rc != 1:
        ctx.fail("schema-accepted:" + kind, f"schemas that differ ({kind}, other direction) gave return value {r.rc}")
    clean(ctx, "refused")
    if db.raw() != before:
        ctx.fail("input-altered", "createChangesetEx changed the database")
    # a schema that is not there
    for op, args in (("createChangesetEx", (s1, "nope", ctx.path("x"))), ("createChangesetEx", ("nope", s1, ctx.path("x"))), ("applyChangesetEx", ("nope", ctx.path("cs"))), ("dumpData", ("nope", ctx.path("x")))):
        r = ctx.call(op, "postgres", db.info, *args)
        if r.rc != 1:
            ctx.fail("missing-schema", f"{op} on a schema that does not exist returned {r.rc}")
    clean(ctx, "missing schema")
    ctx.count("refused:" + kind)
    ctx.sig("schema", kind, [x.ddl("s") for x in tables])


def rebase_case(ctx, i):
    rng = ctx.rng
    opts = {"pk": rng.choice(["serial", "serial", "int", "text"]), "tables": rng.choice([1, 1, 2])}
    db = pg.Db(ctx)
    s = pg.names(rng, pg.SCHEMAS, 3)
    tables = [pg.gen_table(rng, n, opts) for n in pg.names(rng, pg.NAMES, opts["tables"])]
    r0 = {t.name: pg.gen_rows(rng, t, rng.choice([0, 4, 10]), (1, 15)) for t in tables}
    # new keys lie above those of base
    def side():
        out = {}
        for t in tables:
            rows = pg.edit(rng, t, r0[t.name], rng.choice([0, 3, 8]), (16, 24))
            out[t.name] = rows
        return out
    rt, rm = side(), side()
    for t in tables:
        for k in set(rt[t.name]) & set(rm[t.name]) & set(r0[t.name]):
            if rng.random() < 0.2:
                rm[t.name][k] = list(rt[t.name][k])
    for name, rows in zip(s, (r0, rt, rm)):
        db.create(name, tables, rows)
    B, T, M = (db.dump(x) for x in s)
    plans, conflicts = merge.plan(B, T, M)
    t2, conf = ctx.path("t2"), ctx.path("conf.json")
    ctx.ok("createChangesetEx", "postgres", db.info, s[0], s[1], t2)
    r = ctx.call("rebaseEx", "postgres", db.info, s[0], s[2], t2, conf)
    if merge.odd_keys(plans) and r.rc:
        raise vf.Skip()
    if r.rc:
        ctx.fail("rebase-failed", f"rebaseEx of schemas returned {r.rc}: {r.errors()[-2:]}")
    R = db.dump(s[2])
    merge.check_merged(ctx, R, plans, "rebaseEx")
    same(ctx, db.dump(s[0]), B, "base after rebaseEx")
    same(ctx, db.dump(s[1]), T, "theirs after rebaseEx")
    if os.path.exists(conf) != bool(conflicts):
        ctx.fail("conflict-file", f"{len(conflicts)} conflicts, conflict file {'exists' if os.path.exists(conf) else 'missing'}")
    clean(ctx, "rebaseEx")
    for t in tables:
        if t.serial and db.dump(s[2])[t.name]["rows"] != M[t.name]["rows"]:
            sequence_free(ctx, db, s[2], t, "after rebaseEx")
    for x in merge.strata(plans, conflicts):
        ctx.count("met:" + x)
        ctx.sig("rebase", x, [t.ddl("s") for t in tables])


def any_case(ctx, i):
    x = i % 10
    return (ts_case if i % 20 == 3 else citext_case)(ctx, i) if x == 3 else schema_case(ctx, i) if x in (5, 8) else rebase_case(ctx, i) if x in (2, 7) else case(ctx, i)


def main(only=None):
    c = vf.Check("C25", rule="random pairs of PostgreSQL schemas (emulated server); changeset and dump compared with an independent diff of the stored rows, applied to the base schema and to SQLite, inverted; schemas that differ refused; rebaseEx compared with a merge model. Non-trivial: at least one entry (counted by set of entries)",
                 assumptions=["libpq is replaced by /verif/native/pgemu.cpp, which runs the statements in SQLite", "column types integer, double precision, text, citext, boolean, timestamp (whole seconds kept), geometry(POINT|LINESTRING|POLYGON, srid)"])
    n = 1500 if vf.TIER == "quick" else 15000
    c.run_cases(any_case, only or range(n), exe=build.pgrun())
    return c.finish()
