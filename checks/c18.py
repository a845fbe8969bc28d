import collections, os, shutil, sqlite3
import vf, build, dbgen, pg
from changeset import decode, conformance, crow, canon, FormatError
from c02 import read
from c25 import clean, rows_of


def dump_entries(ctx, data, D, what):
    """data holds one insert for every row of the keyed tables of D"""
    try:
        es = decode(data)
    except FormatError as e:
        ctx.fail("undecodable", f"{what}: {e}")
    got = collections.Counter((e.table, e.op, crow(e.new)) for e in es)
    want = collections.Counter()
    for t, x in D.items():
        if "rows" in x:
            for r in list(x["rows"].values()) + x.get("nullkeys", []):
                want[(t, 18, crow(r))] += 1
    if got != want:
        miss, extra = want - got, got - want
        ctx.fail("dump-differs", f"{what}: {sum(miss.values())} rows missing, {sum(extra.values())} unexpected: {list(miss)[:2]} {list(extra)[:2]}")
    for e in es:
        if tuple(bool(p) for p in e.pk) != tuple(bool(p) for p in D[e.table]["pk"]):
            ctx.fail("dump-keys", f"{what}: key columns of {e.table}")
    return es


def emptied(src, dst):
    shutil.copyfile(src, dst)
    c = dbgen.connect(dst)
    c.execute("BEGIN")
    for t in dbgen.tables_of(c):
        if not t.startswith("rtree_"):
            c.execute(f"DELETE FROM {dbgen.q(t)}")
    c.execute("COMMIT")
    c.close()


def dump_case(ctx, i):
    """dumpData of SQLite databases, and the dump applied to an emptied copy"""
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"wide": rng.random() < 0.3})
    D = dbgen.dump(base)
    before = read(base)
    out, again = ctx.path("dump"), ctx.path("again")
    if rng.random() < 0.3:
        open(out, "wb").write(b"T\x01\x01old\0x" * 300)
    ctx.ok("dumpData", "sqlite", rng.choice(["", None]), base, out)
    es = dump_entries(ctx, read(out), D, "dump")
    if read(base) != before:
        ctx.fail("input-altered", "dumpData changed the database")
    n = ctx.call("changesCount", out).rc
    if n != len(es):
        ctx.fail("count", f"changesCount of the dump gives {n}, {len(es)} entries")
    empty = ctx.path("empty.db")
    emptied(base, empty)
    ctx.ok("applyChangeset", empty, out)
    E = dbgen.dump(empty)
    keyed = lambda d: {t: (rows_of({t: x})[t], collections.Counter(crow(r) for r in x.get("nullkeys", []))) for t, x in d.items() if "rows" in x}
    if keyed(E) != keyed(D):
        ctx.fail("restore", "the dump applied to an emptied copy: " + dbgen.diffdesc(E, D))
    ctx.ok("dumpData", "sqlite", "", empty, again)
    dump_entries(ctx, read(again), D, "dump of the restored database")
    nullkeys = any(x.get("nullkeys") for x in D.values())
    inv = ctx.path("inv")
    if not nullkeys:
        ctx.ok("invertChangeset", out, inv)
        ctx.ok("applyChangeset", empty, inv)
    if not nullkeys and any(x["rows"] or x.get("nullkeys") for x in dbgen.dump(empty).values() if "rows" in x):
        ctx.fail("inverse", "the inverted dump did not empty the database")
    ctx.count("dump:" + ("gpkg" if gpkg else "sqlite"))
    ctx.count("dumped_rows", len(es))
    if es:
        ctx.sig("dump", sorted(map(repr, dbgen.entries_set(es))))


TYPES = {"integer": "integer", "double precision": "double precision", "text": "text", "citext": "citext", "boolean": "boolean", "timestamp": "timestamp without time zone", "real": "real"}


# what the server's spatial_ref_sys holds (4326: what the GeoPackage is initialised with)
CRS = {4326: ("EPSG", 4326, 'GEOGCS["WGS 84"]'), 3857: ("EPSG", 3857, 'PROJCS["WGS 84 / Pseudo-Mercator"]'), 40001: ("local's", 77, 'LOCAL_CS["a; b %d %s"]'),
       102100: ("ESRI", 102100, 'PROJCS["WGS_1984_Web_Mercator_Auxiliary_Sphere"]'),
       40002: ("other", 77, 'LOCAL_CS["b"]'), 50026: ("EPSGX", 4326, 'GEOGCS["other"]')}


def check_gpkg(ctx, path, tables, D, what):
    """path is a GeoPackage copy of the PostgreSQL tables with content D"""
    S = dbgen.dump(path)
    names = {t.name for t in tables}
    have = {t for t in S if not t.startswith("gpkg_")}
    if have != names:
        ctx.fail("tables", f"{what}: tables {sorted(have)}, expected {sorted(names)}")
    for t in tables:
        x = S[t.name]
        if x["cols"] != [c[0] for c in t.cols] or x["pk"] != [j in t.pk for j in range(len(t.cols))]:
            ctx.fail("columns", f"{what}: {t.name}: columns {x['cols']} keys {x['pk']}")
        if rows_of({0: x}) != rows_of({0: D[t.name]}):
            ctx.fail("rows", f"{what}: " + dbgen.diffdesc({t.name: x}, {t.name: D[t.name]}))
    c = dbgen.connect(path)
    try:
        for t in tables:
            info = c.execute("SELECT name, type, \"notnull\" FROM pragma_table_info(?) ORDER BY cid", (t.name,)).fetchall()
            for (n, ty, nn), col in zip(info, t.cols):
                want = pg.GEOMS[t.gtype] if col[3] == "geom" else TYPES[col[1]]
                if ty.lower() != want.lower():
                    ctx.fail("type", f"{what}: {t.name}.{n} has type {ty!r}, expected {want!r}")
                if bool(nn) != bool(col[2]):
                    ctx.fail("notnull", f"{what}: {t.name}.{n}: not null {nn}")
            g = c.execute("SELECT column_name, geometry_type_name, srs_id, z, m FROM gpkg_geometry_columns WHERE table_name=?", (t.name,)).fetchall()
            gc = [col[0] for col in t.cols if col[3] == "geom"][0]
            if g != [(gc, pg.GEOMS[t.gtype], t.srid, 0, int(t.dim == 'M'))]:
                ctx.fail("geometry-columns", f"{what}: gpkg_geometry_columns of {t.name}: {g}")
            g = c.execute("SELECT data_type, identifier, srs_id FROM gpkg_contents WHERE table_name=?", (t.name,)).fetchall()
            if g != [("features", t.name, t.srid)]:
                ctx.fail("contents", f"{what}: gpkg_contents of {t.name}: {g}")
            g = c.execute("SELECT organization, organization_coordsys_id, definition FROM gpkg_spatial_ref_sys WHERE srs_id=?", (t.srid,)).fetchall()
            if g != [CRS[t.srid]]:
                ctx.fail("crs", f"{what}: CRS {t.srid}: {g}")
        if c.execute("PRAGMA integrity_check").fetchall() != [("ok",)]:
            ctx.fail("integrity", f"{what}: integrity_check fails")
        fk = c.execute("PRAGMA foreign_key_check").fetchall()
        if fk:
            ctx.fail("foreign-keys", f"{what}: {fk[:3]}")
        if c.execute("SELECT count(*) FROM gpkg_contents").fetchone()[0] != len(tables):
            ctx.fail("contents", f"{what}: unexpected rows in gpkg_contents")
    finally:
        c.close()


def pg_case(ctx, i):
    """PostgreSQL -> GeoPackage -> PostgreSQL"""
    rng = ctx.rng
    db = pg.Db(ctx)
    s1, s2, s3 = pg.names(rng, pg.SCHEMAS, 3)
    full = rng.random() < 0.8
    tables = []
    for n in pg.names(rng, pg.NAMES, rng.choice([1, 1, 2, 3])):
        t = pg.gen_table(rng, n, {"geom": True if full else rng.random() < 0.5, "dims": ["", "", "M"], "pk": rng.choice(["serial", "serial", "int", "text", "comp"] if full else ["serial", "none", "all", "int"])})
        tables.append(t)
    rows = {t.name: pg.gen_rows(rng, t, rng.choice([0, 3, 10])) for t in tables}
    db.create(s1, tables, rows)
    D = db.dump(s1)
    before = db.raw()
    dst = ctx.path("copy.gpkg")
    had = rng.random() < 0.4
    if had:
        c = dbgen.connect(dst)
        c.execute("CREATE TABLE old (a INTEGER PRIMARY KEY)")
        c.execute(f"CREATE TABLE {dbgen.q(tables[0].name + '0')} (z)")
        c.close()
    r = ctx.call("makeCopy", "postgres", db.info, s1, "sqlite", rng.choice(["", None]), dst)
    clean(ctx, "makeCopy from PostgreSQL")
    if db.raw() != before:
        ctx.fail("input-altered", "makeCopy changed the source schema")
    ok = all(t.pk and t.gtype for t in tables)
    if r.rc:
        if ok:
            ctx.fail("copy-failed", f"makeCopy from PostgreSQL: {r.errors()[-2:]}")
        ctx.count("copy_refused")
        if not r.errors():
            ctx.fail("no-message", "makeCopy failed without a message")
        return
    if not ok:
        ctx.fail("copy-incomplete", "a schema with a table without key or geometry was copied without an error")
    check_gpkg(ctx, dst, tables, D, "copy of a schema")
    ctx.count("replaced" if had else "new_file")
    ctx.count("pg_to_gpkg")
    ctx.sig("pg", [t.ddl("s") for t in tables], sorted(map(repr, rows.items())))
    # and back
    if rng.random() < 0.3:
        db.exec(f"CREATE SCHEMA {pg.qi(s2)}; CREATE TABLE {pg.qi(s2)}.old (a integer);")
        ctx.count("schema_replaced")
    gp = read(dst)
    others = db.dump(s1)
    ctx.ok("makeCopy", "sqlite", "", dst, "postgres", db.info, s2, key="copy-back-failed")
    clean(ctx, "makeCopy to PostgreSQL")
    if read(dst) != gp:
        ctx.fail("input-altered", "makeCopy changed the source file")
    if rows_of(db.dump(s1)) != rows_of(others):
        ctx.fail("other-schema", "makeCopy changed another schema")
    back = db.dump(s2)
    what = "copied back"
    if set(back) != set(D):
        ctx.fail("tables", f"{what}: {sorted(back)} / {sorted(D)}")
    lower = {"citext": "text", "real": "double precision"}
    for t in tables:
        b, d = back[t.name], D[t.name]
        if b["cols"] != d["cols"] or [bool(p) for p in b["pk"]] != [bool(p) for p in d["pk"]]:
            ctx.fail("columns", f"{what}: {t.name}: {b['cols']} {b['pk']}")
        for n, x, y in zip(b["cols"], b["types"], d["types"]):
            if x != lower.get(y, y) and not (y == "timestamp without time zone" and x == "text"):
                ctx.fail("type", f"{what}: {t.name}.{n}: type {x}, was {y}")
        if rows_of({0: b}) != rows_of({0: d}):
            ctx.fail("rows", f"{what}: " + dbgen.diffdesc({t.name: b}, {t.name: d}))
        g = db.exec(f"SELECT f_geometry_column, type, srid FROM geometry_columns WHERE f_table_schema = {pg.ql(s2)} AND f_table_name = {pg.ql(t.name)}")
        gc = [col[0] for col in t.cols if col[3] == "geom"][0]
        if [tuple(map(str, x)) for x in g] != [(gc, pg.GEOMS[t.gtype] + t.dim, str(t.srid))]:
            ctx.fail("geometry-columns", f"{what}: {t.name}: {g}")
        if len(t.pk) == 1 and t.cols[t.pk[0]][3] == "int" and rows[t.name]:
            s = db.seq(s2, t.name)
            m = max(k[0][1] for k in d["rows"])
            if not s or s[0] + (s[1] == "t") <= m:
                ctx.fail("sequence-stale", f"{what}: sequence of {t.name} at {s}, highest key {m}")
    # the copy and the original are the same
    cs = ctx.path("cs")
    if all(t.serial for t in tables) and all(c[1] not in lower and c[3] != "ts" for t in tables for c in t.cols):
        ctx.ok("createChangesetEx", "postgres", db.info, s1, s2, cs)
        if read(cs):
            ctx.fail("copy-differs", f"createChangesetEx of the original and the copy: {decode(read(cs))[:3]}")
        ctx.count("copy_compared")
    ctx.count("gpkg_to_pg")


META = """CREATE TABLE gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT UNIQUE, description TEXT, last_change DATETIME NOT NULL, min_x DOUBLE, min_y DOUBLE, max_x DOUBLE, max_y DOUBLE, srs_id INTEGER);
CREATE TABLE gpkg_geometry_columns (table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, PRIMARY KEY (table_name, column_name));
CREATE TABLE gpkg_spatial_ref_sys (srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"""


def geomtype(t):
    return f"geometry({ {1: 'Point', 2: 'LineString', 3: 'Polygon'}[t.gtype]}{t.dim},{t.srid})"


def lite_pg_case(ctx, i):
    """plain SQLite -> PostgreSQL: blobs, booleans, times, names"""
    rng = ctx.rng
    db = pg.Db(ctx)
    schema = pg.names(rng, pg.SCHEMAS, 1)[0]
    src = ctx.path("src.db")
    c = dbgen.connect(src)
    kinds = [("INTEGER", "int"), ("DOUBLE", "real"), ("REAL", "real"), ("TEXT", "text"), ("VARCHAR(20)", "text"), ("BOOLEAN", "bool"), ("DATETIME", "ts"), ("BLOB", "blob"), ("TEXT(9)", "text"), ("int", "int"), ("MEDIUMINT", "int"), ("FLOAT", "real")]
    want, wpk = {}, {}
    layers = rng.random() < 0.5
    if layers:
        c.executescript(META)
        for k, (a, b, w) in CRS.items():
            c.execute("INSERT INTO gpkg_spatial_ref_sys VALUES (?,?,?,?,?,NULL)", (a, k, a, b, w))
    for n in pg.names(rng, pg.NAMES, rng.choice([1, 2, 3])):
        cols = [[x, *rng.choice(kinds)] for x in pg.names(rng, pg.COLS, rng.randint(0, 6))]
        cols.insert(0, [rng.choice(["fid", "ID"]), "INTEGER", "int"])
        nn = [j > 0 and rng.random() < 0.2 for j in range(len(cols))]
        c.execute(f"CREATE TABLE {dbgen.q(n)} (" + ", ".join(f"{dbgen.q(a)} {b}{' NOT NULL' if z else ''}{' PRIMARY KEY' if not j else ''}" for j, ((a, b, f), z) in enumerate(zip(cols, nn))) + ")")
        t = pg.Table(n, [[a, b, z, f] for (a, b, f), z in zip(cols, nn)], [0], True)
        if layers and rng.random() < 0.8:
            t.gtype, t.srid, t.dim = rng.choice([1, 2, 3]), rng.choice(list(CRS)), rng.choice(["", "Z", "M", "ZM"])
            gn = "geo m" if rng.random() < 0.3 else "geom"
            gn += "_" if gn in [x[0].lower() for x in t.cols] else ""
            t.cols.append([gn, pg.GEOMS[t.gtype], False, "geom"])
            c.execute(f"ALTER TABLE {dbgen.q(n)} ADD COLUMN {dbgen.q(gn)} {pg.GEOMS[t.gtype]}")
            c.execute("INSERT INTO gpkg_contents VALUES (?, 'features', ?, '', '2020-01-01T00:00:00.000Z', NULL, NULL, NULL, NULL, ?)", (n, n, t.srid))
            c.execute("INSERT INTO gpkg_geometry_columns VALUES (?,?,?,?,?,?)", (n, gn, pg.GEOMS[t.gtype], t.srid, int("Z" in t.dim), int("M" in t.dim)))
        rows = {}
        for k in rng.sample(range(1, 60), rng.choice([0, 2, 8])):
            r = [k] + [(rng.randbytes(rng.choice([0, 1, 5, 40])) if cc[3] == "blob" and not (not cc[2] and rng.random() < 0.2) else pg.value(rng, t, j + 1) if cc[3] != "blob" else None) for j, cc in enumerate(t.cols[1:])]
            c.execute(f"INSERT INTO {dbgen.q(n)} VALUES ({','.join('?' * len(r))})", r)
            rows[k] = r
        want[n] = (t, rows)
    c.close()
    before = read(src)
    ctx.ok("makeCopy", "sqlite", "", src, "postgres", db.info, schema)
    clean(ctx, "makeCopy")
    if read(src) != before:
        ctx.fail("input-altered", "makeCopy changed the source")
    back = db.dump(schema)
    if set(back) != set(want):
        ctx.fail("tables", f"{sorted(back)} / {sorted(want)}")
    for n, (t, rows) in want.items():
        if back[n]["cols"] != [x[0] for x in t.cols] or back[n]["pk"] != [j == 0 for j in range(len(t.cols))]:
            ctx.fail("columns", f"{n}: {back[n]['cols']} {back[n]['pk']}")
        ty = {"int": "integer", "real": "double precision", "text": "text", "bool": "boolean", "ts": "timestamp without time zone", "blob": "bytea"}
        if back[n]["types"] != [ty.get(x[3], "geometry") for x in t.cols]:
            ctx.fail("type", f"{n}: {back[n]['types']}, expected {[ty.get(x[3], "geometry") for x in t.cols]}")
        if t.gtype:
            k = db.conn()
            g = k.execute("SELECT a.atttypid FROM pg_attribute a JOIN pg_class c ON c.oid = a.attrelid JOIN pg_namespace n ON n.oid = c.relnamespace WHERE nspname = ? AND relname = ? AND attname = ?", (schema, n, t.cols[-1][0])).fetchall()
            k.close()
            if g != [(geomtype(t),)]:
                ctx.fail("geometry-type", f"{n}: {g}, expected {geomtype(t)}")
            ctx.count("layer:" + t.dim)
        w = {(canon(k),): crow(r) for k, r in rows.items()}
        g = {k: crow(r) for k, r in back[n]["rows"].items()}
        if g != w:
            ctx.fail("rows", f"{n}: {[(k, g.get(k), w.get(k)) for k in {*g, *w} if g.get(k) != w.get(k)][:2]}")
        if rows:
            s = db.seq(schema, n)
            if not s or s[0] + (s[1] == "t") <= max(rows):
                ctx.fail("sequence-stale", f"sequence of {n} at {s}, highest key {max(rows)}")
        for x in t.cols:
            ctx.count("type:" + x[3])
    ctx.count("sqlite_to_pg")
    ctx.sig("lite", sorted(map(repr, ((n, r) for n, (t, r) in want.items()))))


def lite_case(ctx, i):
    """SQLite -> SQLite: a complete copy or an error; the source stays as it is"""
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {})
    D = dbgen.full_dump(base)
    dst = ctx.path("dst.gpkg")
    if rng.random() < 0.4:
        shutil.copyfile(mod, dst)
    r = ctx.call("makeCopy", "sqlite", "", base, "sqlite", "", dst)
    if dbgen.full_dump(base) != D:
        ctx.fail("input-altered", "makeCopy changed the source")
    if r.rc:
        if not r.errors():
            ctx.fail("no-message", "makeCopy failed without a message")
        ctx.count("sqlite_copy_refused")
        return
    C = dbgen.dump(dst)
    for t, x in dbgen.dump(base).items():
        if t not in C or C[t]["cols"] != x["cols"] or rows_of({0: C[t]}) != rows_of({0: x}):
            ctx.fail("copy-differs", f"makeCopy reported success, table {t} differs")
    ctx.count("sqlite_copy")
    ctx.sig("litecopy", sorted(D))


def any_case(ctx, i):
    x = i % 10
    return lite_case(ctx, i) if x == 9 else lite_pg_case(ctx, i) if x in (2, 6) else pg_case(ctx, i) if x in (1, 4, 7) else dump_case(ctx, i)


def main(only=None):
    c = vf.Check("C18", rule="random databases: the dump compared with the stored rows, applied to an emptied copy; copies between GeoPackage and PostgreSQL (emulated server) compared table by table. Non-trivial: content with at least one row, by content",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp, libpq by /verif/native/pgemu.cpp", "column types the two databases share"])
    n = 1500 if vf.TIER == "quick" else 15000
    c.run_cases(any_case, only or range(n), exe=build.pgrun())
    return c.finish()
