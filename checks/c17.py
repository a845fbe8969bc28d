import math, os, shutil, sqlite3, struct
import vf, dbgen, merge
from dbgen import q
from changeset import decode, encode, Entry, UNDEF, INSERT, UPDATE, DELETE, crow
from c02 import read

NAMES = ["log it", "it's", 'quo"te', "select", "trigger", "Ünï 表", "semi;colon", "main.x", "per%cent%s%q", "back\\slash", "[b]", "`t`", "new\nline", "a--b", "x'--", "GPKG_upper", "Rtree_upper", "my_gpkg_x", "xrtree_", "gpkg", "rtree",
         "trigger_insert_feature_count", "trigger_delete_feature", "Trigger_Insert_Feature_Count_x", "trigger_update_feature_count_x", "\U0001F5FA", "t1", "zz", "0", " ", "/* c */"]


class CONTENTS:
    """the table of contents of a GeoPackage, which may have triggers too"""
    name = "gpkg_contents"
    cols = [["description", "TEXT"]]


def other_case(n):
    """names are not case sensitive"""
    return "".join(x.swapcase() if x.isascii() else x for x in n)


def triggers(rng, tables, n):
    """user triggers whose running shows in table trace_log or makes a change fail"""
    out, names = [], set()
    for _ in range(n):
        nm = rng.choice(NAMES)
        while nm.lower() in names:
            nm += "x"
        names.add(nm.lower())
        t = rng.choice(tables)
        c = rng.choice(t.cols)[0]
        when = rng.choice(["BEFORE", "AFTER", "AFTER", ""])
        ev = rng.choice(["INSERT", "UPDATE", "DELETE", "INSERT", "UPDATE", "DELETE", f"UPDATE OF {q(c)}"])
        cond = rng.choice(["", "", " FOR EACH ROW", " FOR EACH ROW WHEN 1", " WHEN 'x;y' <> 'END'", " /* not; END */ WHEN 1"])
        body = rng.choice([
            "INSERT INTO trace_log (what) VALUES ('%s');" % nm.replace("'", "''"),
            "INSERT INTO trace_log (what) SELECT 'a;b'';' || '%d%q%w%s' || \"what\" FROM trace_log LIMIT 1; INSERT INTO trace_log (what) VALUES ('2');",
            "SELECT RAISE(ABORT, 'user trigger ran');",
            "SELECT RAISE(IGNORE);",
            "SELECT RAISE(ROLLBACK, 'user trigger ran; END');",
            f"DELETE FROM {q(t.name)};",
            f"UPDATE {q(t.name)} SET {q(c)} = NULL;",
            "UPDATE trace_log SET what = 'x' || char(10) || 'é\n表';",
            "INSERT INTO no_such_table VALUES (1);",
            "-- a comment; END\n INSERT INTO trace_log (what) VALUES (\n\t1);",
            "INSERT INTO trace_log (what) VALUES (CASE WHEN 1 THEN 2 ELSE 3 END);"])
        out.append(f"CREATE TRIGGER {rng.choice(['', '', 'IF NOT EXISTS ', 'main.'])}{q(nm)} {when} {ev} ON {q(other_case(t.name) if rng.random() < 0.2 else t.name)}{cond} BEGIN {body} END")
    if rng.random() < 0.4:
        t = rng.choice(tables)
        c = q(t.cols[0][0])
        out.append(f"CREATE VIEW {q('the view')} AS SELECT {c} FROM {q(t.name)}")
        out.append(f"CREATE TRIGGER {q('instead of')} INSTEAD OF INSERT ON {q('the view')} BEGIN INSERT INTO trace_log (what) VALUES ('view'); END")
    return out


def add_triggers(paths, sql):
    ok = []
    for n, p in enumerate(paths):
        c = dbgen.connect(p)
        c.execute("PRAGMA synchronous=OFF")
        c.execute("CREATE TABLE trace_log (id INTEGER PRIMARY KEY, what)")
        c.execute("INSERT INTO trace_log VALUES (1, 'first')")
        for s in (sql if n == 0 else ok):
            try:
                c.execute(s)
                if n == 0:
                    ok.append(s)
            except sqlite3.DatabaseError:
                if n:
                    raise
        c.close()
    return ok


def f32(x, up):
    f = struct.unpack("f", struct.pack("f", x))[0]
    return abs(f - x) <= abs(x) * 1e-6 + 1e-30


def consistent(ctx, path, tables, what):
    """indexes and counts agree with the rows"""
    c = dbgen.connect(path)
    try:
        n = 0
        for t in tables:
            if t.geomcol is None:
                continue
            pk, g = t.cols[t.pk[0]][0], t.cols[t.geomcol][0]
            rt = f"rtree_{t.name}_{g}"
            rows = c.execute(f"SELECT {q(pk)}, {q(g)} FROM {q(t.name)}").fetchall()
            cnt = c.execute("SELECT feature_count FROM gpkg_ogr_contents WHERE table_name=?", (t.name,)).fetchone()[0]
            if cnt != len(rows):
                ctx.fail("count", f"{what}: feature count of {t.name!r} is {cnt}, the table has {len(rows)} rows")
            idx = {r[0]: r[1:] for r in c.execute(f"SELECT id, minx, maxx, miny, maxy FROM {q(rt)}")}
            want = {k: dbgen.geom_bounds(v) for k, v in rows if v is not None and dbgen.geom_bounds(v) is not None}
            if set(idx) != set(want):
                ctx.fail("rtree-rows", f"{what}: index of {t.name!r}: missing {sorted(set(want) - set(idx))[:5]}, stale {sorted(set(idx) - set(want))[:5]}")
            for k, b in want.items():
                if not all(f32(x, i % 2) or math.isclose(x, y, rel_tol=2e-7, abs_tol=1e-30) for i, (x, y) in enumerate(zip(b, idx[k]))) or any(not math.isclose(x, y, rel_tol=3e-7, abs_tol=1e-30) for x, y in zip(b, idx[k])):
                    ctx.fail("rtree-bounds", f"{what}: index of {t.name!r} row {k} has bounds {idx[k]}, the geometry {b}")
            r = c.execute("SELECT rtreecheck('main', ?)", (rt,)).fetchone()[0]
            if r != "ok":
                ctx.fail("rtree-damaged", f"{what}: {r[:200]}")
            n += len(rows)
        return n
    finally:
        c.close()


def gpkg_edits(rng, path, tables):
    """edits with geometries appearing, vanishing and moving, and unique values passed from row to row"""
    c = dbgen.connect(path)
    c.execute("PRAGMA synchronous=OFF")
    c.execute("BEGIN")
    for t in tables:
        dbgen.random_edits(rng, c, t, rng.choice([0, 3, 10]))
        if t.geomcol is None:
            continue
        pk, g = q(t.cols[t.pk[0]][0]), q(t.cols[t.geomcol][0])
        for (k,) in c.execute(f"SELECT {pk} FROM {q(t.name)} ORDER BY 1").fetchall():
            if rng.random() < 0.4:
                c.execute(f"UPDATE {q(t.name)} SET {g}=? WHERE {pk}=?", (rng.choice([None, dbgen.geom(rng), dbgen.geom(rng)]), k))
        u = [q(x[0]) for x in t.cols if x[3] == "uniq"]
        if u:
            # a deleted row's unique value goes to a new row: the entries have to be tried again
            for (k, v) in c.execute(f"SELECT {pk}, {u[0]} FROM {q(t.name)} WHERE {u[0]} IS NOT NULL ORDER BY 1").fetchall()[:3]:
                c.execute(f"DELETE FROM {q(t.name)} WHERE {pk}=?", (k,))
                r = dbgen.new_row(rng, t, (5000, 9000))
                r[[x[3] for x in t.cols].index("uniq")] = v
                try:
                    dbgen.insert(c, t, r)
                except sqlite3.IntegrityError:
                    pass
    c.execute("COMMIT")
    c.close()


def schema(path):
    return dbgen.schema_of(path)


def pair(ctx, gpkg):
    rng = ctx.rng
    dbgen.STRICT_GEOM = True
    base, mod = ctx.path("base.db"), ctx.path("mod.db")
    opts = {"generated": False}
    tables = dbgen.gen_gpkg_schema(rng, opts) if gpkg else dbgen.gen_schema(rng, opts)
    if not gpkg and rng.random() < 0.25:
        # tables of the user whose names look like those of a GeoPackage
        t = rng.choice(tables)
        name = rng.choice(["gpkg_notes", "gpkg_contents_x", "gpkg", "GPKG_upper", "rtree", "rtreex"])
        if name.lower() not in [x.name.lower() for x in tables]:
            t.name, t.extra_objects = name, None
    if gpkg:
        for t in tables:
            if rng.random() < 0.5 and not any(x[3] == "uniq" for x in t.cols):
                t.cols.append(["u", "TEXT", False, "uniq", "UNIQUE"])
    c = dbgen.create_db(base, tables, gpkg, encoding=rng.choice([None, None, None, "UTF-16"]))
    c.execute("BEGIN")
    for t in tables:
        dbgen.populate(rng, c, t, rng.choice([0, 3, 10, 40]))
    c.execute("COMMIT")
    c.close()
    shutil.copyfile(base, mod)
    gpkg_edits(rng, mod, tables)
    if gpkg and rng.random() < 0.4:
        c = dbgen.connect(mod)
        c.execute("UPDATE gpkg_contents SET description = description || ? WHERE rowid % 2 = ?", (f"d{rng.randrange(99)}", rng.randrange(2)))
        c.close()
    return base, mod, tables


def case(ctx, i):
    rng = ctx.rng
    P = ctx.path
    gpkg = rng.random() < 0.7
    base, mod, tables = pair(ctx, gpkg)
    if gpkg:
        consistent(ctx, base, tables, "test setup")
        consistent(ctx, mod, tables, "test setup")
    on = tables + ([CONTENTS] if gpkg and rng.random() < 0.5 else [])
    sql = add_triggers([base, mod], triggers(rng, on, rng.choice([0, 1, 2, 4, 9])))
    cs = P("c.diff")
    ctx.ok("createChangeset", base, mod, cs)
    n = len(decode(read(cs)))
    a = P("a.db")
    shutil.copyfile(base, a)
    sc = schema(a)
    r = ctx.call("applyChangeset", a, cs)
    if r.rc != 0:
        ctx.fail("apply", f"apply to a database with triggers failed: {r.log[-3:]} triggers {sql}")
    if schema(a) != sc:
        ctx.fail("schema", f"apply changed the schema: {sorted(set(sc) ^ set(schema(a)))[:3]}")
    got, want = dbgen.dump(a), dbgen.dump(mod)
    if dbgen.norm(got) != dbgen.norm(want):
        ctx.fail("content", f"with triggers {sql}: " + dbgen.diffdesc(want, got))
    if gpkg:
        ctx.count("indexed_rows", consistent(ctx, a, tables, "after apply"))
    ctx.count("user_triggers", len(sql))
    ctx.sig("apply", len(sql), n, gpkg, [s[:60] for s in sql])
    # and back
    ctx.ok("invertChangeset", cs, P("i.diff"))
    r = ctx.call("applyChangeset", a, P("i.diff"))
    if r.rc != 0:
        ctx.fail("apply", f"applying the inverse failed: {r.log[-3:]}")
    if schema(a) != sc or dbgen.norm(dbgen.dump(a)) != dbgen.norm(dbgen.dump(base)):
        ctx.fail("content", "after the inverse: " + dbgen.diffdesc(dbgen.dump(base), dbgen.dump(a)))
    if gpkg:
        consistent(ctx, a, tables, "after the inverse")
    # an apply that fails at the end leaves triggers, indexes and counts alone
    es = decode(read(cs))
    if es:
        t = rng.choice(tables)
        pk = tuple(int(j in t.pk) for j in range(len(t.cols)))
        es.append(Entry(t.name, pk, DELETE, [10 ** 12 + j for j in range(len(t.cols))], None))
        with open(P("bad.diff"), "wb") as f:
            f.write(encode(es))
        shutil.copyfile(base, a)
        full = dbgen.full_dump(a)
        r = ctx.call("applyChangeset", a, P("bad.diff"))
        if r.rc == 0:
            ctx.fail("no-error", "an entry without a row was applied")
        if dbgen.full_dump(a) != full:
            ctx.fail("failed-apply", f"an apply that failed left changes: {[k for k in full if full[k] != dbgen.full_dump(a).get(k)]}")
        if gpkg:
            consistent(ctx, a, tables, "after an apply that failed")
        ctx.sig("failed", len(sql), gpkg, len(es))
    ctx.sample({"triggers": sql[:3], "entries": n, "geopackage": gpkg})


def rebased(ctx, i):
    rng = ctx.rng
    P = ctx.path
    dbgen.STRICT_GEOM = True
    base, theirs, mine, tables, gpkg = merge.gen_triple(rng, ctx, {"gpkg": rng.random() < 0.8, "generated": False})
    user = rng.random() < 0.6
    # the model without triggers
    if gpkg:
        for p in (base, theirs, mine):
            consistent(ctx, p, tables, "test setup")
    B, T, M = dbgen.dump(base), dbgen.dump(theirs), dbgen.dump(mine)
    plans, conflicts = merge.plan(B, T, M)
    if merge.odd_keys(plans):
        raise vf.Skip()
    sql = add_triggers([mine, base, theirs], triggers(rng, tables, rng.choice([1, 3, 6]))) if user else []
    sc = schema(mine)
    work = P("w.db")
    shutil.copyfile(mine, work)
    if rng.random() < 0.5:
        r = ctx.call("rebase", base, theirs, work, P("conf.json"))
    else:
        ctx.ok("createChangeset", base, theirs, P("bt.diff"))
        r = ctx.call("rebaseEx", "sqlite", "", base, work, P("bt.diff"), P("conf.json"))
    if r.rc != 0:
        if dbgen.full_dump(work) != dbgen.full_dump(mine):
            ctx.fail("failed-rebase", "a rebase that failed left changes")
        raise vf.Skip()
    if schema(work) != sc:
        ctx.fail("schema", f"rebase changed the schema: {sorted(set(sc) ^ set(schema(work)))[:3]}")
    R = dbgen.dump(work)
    if user:
        if [crow(r) for r in R["trace_log"]["rows"].values()] != [crow((1, "first"))]:
            ctx.fail("ran", f"rebase ran a trigger: {list(R['trace_log']['rows'].values())[:3]}")
    merge.check_merged(ctx, R, plans, "rebase")
    if gpkg:
        ctx.count("indexed_rows", consistent(ctx, work, tables, "after rebase"))
    ctx.count("rebased")
    ctx.sig("rebase", len(sql), gpkg, sorted(merge.strata(plans, conflicts)))


def any_case(ctx, i):
    return (rebased if i % 3 == 2 else case)(ctx, i)


def main(only=None):
    c = vf.Check("C17", rule="databases with user triggers of hostile names and bodies (logging, aborting, deleting) and with GeoPackage rtree and feature-count triggers: apply, inverse, failing apply, rebase; schema text, trace table, index rows and bounds, counts and rtreecheck compared. Non-trivial: distinct (operation, triggers, entries)",
                 assumptions=["a trigger counts as the database's own unless its name starts with gpkg_, rtree_, trigger_insert_feature_count_ or trigger_delete_feature_count_", "geometries are valid or null", "libgpkg is replaced by /verif/native/gpkg_shim.cpp"])
    c.run_cases(any_case, only or range(3000 if vf.TIER == "quick" else 30000))
    return c.finish()
