import copy, os, shutil, sqlite3
import vf, dbgen
from dbgen import q
from changeset import decode, encode, Entry, UNDEF, INSERT, UPDATE, DELETE
from c02 import read, check_entries

ESCAPED = lambda s: s.replace("'", "''")


# ---------------------------------------------------------------- differences that have to be refused
# each takes (rng, tables, gpkg) and changes the list of tables, or returns SQL to run on the modified database, or None: not applicable
def pick(rng, tables, f=lambda t: True):
    c = [t for t in tables if f(t)]
    return rng.choice(c) if c else None


def m_add_table(rng, ts, gpkg):
    n = rng.choice(["zzz", "AAA", "mid", "gpkg_mine", "sqlit", "rtre", "with'quote", "gpkg_contents2"])
    return [f"CREATE TABLE {q(n)} (id INTEGER PRIMARY KEY, v TEXT)"] + ([f"INSERT INTO {q(n)} VALUES (1, 'x')"] if rng.random() < 0.5 else [])


def m_drop_table(rng, ts, gpkg):
    if len(ts) > 1:
        ts.remove(rng.choice(ts))
        return []


def m_rename_table(rng, ts, gpkg):
    t = pick(rng, ts)
    t.name = rng.choice([t.name + "x", "x" + t.name, t.name + " ", t.name.swapcase() if t.name.swapcase() != t.name else t.name + "_"])
    return []


def m_add_column(rng, ts, gpkg):
    t = pick(rng, ts)
    c = ["extra", rng.choice(["TEXT", "INTEGER", "", "BLOB"]), False, "text", ""]
    p = rng.randint(0, len(t.cols))
    insert_col(t, p, c)
    return []


def insert_col(t, p, c):
    t.cols.insert(p, c)
    t.pk = [k + (k >= p) for k in t.pk]
    if t.geomcol is not None:
        t.geomcol += t.geomcol >= p


def m_drop_column(rng, ts, gpkg):
    t = pick(rng, ts, lambda t: any(i not in t.pk and i != t.geomcol for i in range(len(t.cols))) and not t.gen)
    if not t:
        return None
    p = rng.choice([i for i in range(len(t.cols)) if i not in t.pk and i != t.geomcol])
    del t.cols[p]
    t.pk = [k - (k > p) for k in t.pk]
    if t.geomcol is not None:
        t.geomcol -= t.geomcol > p
    return []


def m_rename_column(rng, ts, gpkg):
    t = pick(rng, ts, lambda t: not t.gen)
    if not t:
        return None
    c = rng.choice(t.cols)
    n = c[0]
    others = [x[0].lower() for x in t.cols if x is not c]
    c[0] = next(x for x in rng.sample([n + "2", n.swapcase(), " " + n, n[:-1] + "Z", n + "é"], 5) + [n + "_r"] if x.lower() not in others and x != n and x)
    c[4] = ""
    return []


def m_swap_columns(rng, ts, gpkg):
    t = pick(rng, ts, lambda t: len(t.cols) > 2 and not t.gen)
    if not t:
        return None
    i, j = rng.sample(range(len(t.cols)), 2)
    if t.cols[i][:3] == t.cols[j][:3]:
        return None
    t.cols[i], t.cols[j] = t.cols[j], t.cols[i]
    sw = lambda k: j if k == i else i if k == j else k
    t.pk = [sw(k) for k in t.pk]
    if t.geomcol is not None:
        t.geomcol = sw(t.geomcol)
    return []


def m_type(rng, ts, gpkg):
    t = pick(rng, ts, lambda t: any(i not in t.pk for i in range(len(t.cols))))
    if not t:
        return None
    c = t.cols[rng.choice([i for i in range(len(t.cols)) if i not in t.pk])]
    old = c[1]
    c[1] = rng.choice([x for x in ("INTEGER", "TEXT", "REAL", "BLOB", "", "TEXT(20)", "TEXT(21)", "VARCHAR(30)", "DATE", "POINT", "DOUBLE", "BOOLEAN", old + "X") if x.lower() != old.lower()])
    return []


def m_notnull(rng, ts, gpkg):
    t = pick(rng, ts, lambda t: any(i not in t.pk for i in range(len(t.cols))))
    if not t:
        return None
    c = t.cols[rng.choice([i for i in range(len(t.cols)) if i not in t.pk])]
    c[2] = not c[2]
    if c[2] and "DEFAULT NULL" in c[4]:
        c[4] = ""
    return []


def m_key_more(rng, ts, gpkg):
    t = pick(rng, ts, lambda t: t.pkstyle not in ("all",) and any(i not in t.pk for i in range(len(t.cols))) and not t.autoinc)
    if not t:
        return None
    i = rng.choice([i for i in range(len(t.cols)) if i not in t.pk])
    t.pk = t.pk + [i]
    return []


def m_key_less(rng, ts, gpkg):
    t = pick(rng, ts, lambda t: len(t.pk) > 1)
    if not t:
        return None
    t.pk = [rng.choice(t.pk)]
    return []


def m_key_moved(rng, ts, gpkg):
    t = pick(rng, ts, lambda t: len(t.pk) == 1 and len(t.cols) > 1 and not t.autoinc)
    if not t:
        return None
    t.pk = [rng.choice([i for i in range(len(t.cols)) if i not in t.pk])]
    return []


def m_key_none(rng, ts, gpkg):
    t = pick(rng, ts, lambda t: not t.autoinc and not t.tail and t.geomcol is None)
    if not t:
        return None
    t.pk = []
    return []


def layer(ts):
    return [t for t in ts if t.geomcol is not None]


def m_geom(col, values):
    def f(rng, ts, gpkg):
        l = layer(ts)
        if not gpkg or not l:
            return None
        t = rng.choice(l)
        v = rng.choice(values)
        return [f"UPDATE gpkg_geometry_columns SET {col}={v} WHERE table_name='{ESCAPED(t.name)}'"]
    f.__name__ = "m_geom_" + col
    return f


def m_geom_row(rng, ts, gpkg):
    l = layer(ts)
    if not gpkg or not l:
        return None
    return [f"DELETE FROM gpkg_geometry_columns WHERE table_name='{ESCAPED(rng.choice(l).name)}'"]


def m_geom_column(rng, ts, gpkg):
    l = [t for t in layer(ts) if len(t.cols) > 2]
    if not gpkg or not l:
        return None
    t = rng.choice(l)
    o = rng.choice([c[0] for i, c in enumerate(t.cols) if i != t.geomcol])
    return [f"UPDATE gpkg_geometry_columns SET column_name='{ESCAPED(o)}' WHERE table_name='{ESCAPED(t.name)}'"]


def m_crs(col, values):
    def f(rng, ts, gpkg):
        if not gpkg or not layer(ts):
            return None
        return [f"UPDATE gpkg_spatial_ref_sys SET {col}={rng.choice(values)} WHERE srs_id={getattr(rng.choice(layer(ts)), 'srs', 4326)}"]
    f.__name__ = "m_crs_" + col
    return f


REFUSED = [m_add_table, m_drop_table, m_rename_table, m_add_column, m_drop_column, m_rename_column, m_swap_columns, m_type, m_notnull, m_key_more, m_key_less, m_key_moved, m_key_none,
           m_geom("geometry_type_name", ["'POINTZ'", "'MULTIPOINT'", "'x'"]), m_geom("srs_id", ["0", "-1", "4326", "3857"]), m_geom("z", ["1 - z"]), m_geom("m", ["1 - m"]), m_geom_row, m_geom_column,
           m_crs("organization", ["'OTHER'", "'epsg'"]), m_crs("organization_coordsys_id", ["4327", "0"]), m_crs("definition", ["'undefined'", "definition || ' '", "''"])]


# ---------------------------------------------------------------- differences that do not count
def a_view(rng, ts, gpkg):
    return [f"CREATE VIEW vv AS SELECT * FROM {q(rng.choice(ts).name)}"]


def a_index(rng, ts, gpkg):
    t = rng.choice(ts)
    return [f"CREATE INDEX ii ON {q(t.name)} ({q(rng.choice(t.cols)[0])})"]


def a_trigger(rng, ts, gpkg):
    return [f"CREATE TRIGGER tt AFTER INSERT ON {q(rng.choice(ts).name)} BEGIN SELECT 1; END"]


def a_virtual(rng, ts, gpkg):
    return [rng.choice(["CREATE VIRTUAL TABLE rtree_x_geom USING rtree(id, a, b)", "create virtual table rtree_y USING rtree(id, a, b, c, d)"])]


def a_rtree_name(rng, ts, gpkg):
    return ["CREATE TABLE rtree_notreally_node (nodeno INTEGER PRIMARY KEY, data)", "INSERT INTO rtree_notreally_node VALUES (1, 2)"]


def a_ogr(rng, ts, gpkg):
    return ["UPDATE gpkg_ogr_contents SET feature_count=77"] if gpkg else ["CREATE TABLE gpkg_ogr_contents (table_name TEXT PRIMARY KEY, feature_count)", "INSERT INTO gpkg_ogr_contents VALUES ('a', 1)"]


def a_analyze(rng, ts, gpkg):
    return ["ANALYZE"]


def a_default(rng, ts, gpkg):
    for t in ts:
        for i, c in enumerate(t.cols):
            if i not in t.pk and not c[4]:
                c[4] = rng.choice(["DEFAULT 5", "DEFAULT 'q'", "CHECK (1)", "COLLATE BINARY"])
    return []


def a_generated(rng, ts, gpkg):
    t = rng.choice(ts)
    t.gen.append((rng.randint(0, len(t.cols)), f"gextra TEXT AS (hex({q(t.cols[0][0])}))"))
    return []


def a_autoinc(rng, ts, gpkg):
    for t in ts:
        if t.pkstyle == "int" and len(t.pk) == 1 and t.cols[t.pk[0]][1].upper() == "INTEGER" and not t.tail:
            t.autoinc = not t.autoinc
    return []


def a_order(rng, ts, gpkg):
    rng.shuffle(ts)
    return []


def a_version(rng, ts, gpkg):
    return ["PRAGMA user_version=99", "PRAGMA application_id=1196437808"]


def a_nothing(rng, ts, gpkg):
    return []


def a_nokey_rows(rng, ts, gpkg):
    """a table without a key in both: its rows do not count"""
    return "nokey"


ACCEPTED = [a_view, a_index, a_trigger, a_virtual, a_rtree_name, a_ogr, a_analyze, a_default, a_generated, a_autoinc, a_order, a_version, a_nothing, a_nothing, a_nokey_rows]


def make(rng, ctx, tables, gpkg, path, sql=(), src=None):
    c = dbgen.create_db(path, tables, gpkg)
    c.execute("PRAGMA synchronous=OFF")
    if src is None:
        for t in tables:
            dbgen.populate(rng, c, t, rng.choice([0, 2, 6, 15]))
    else:
        c.execute("ATTACH ? AS src", (src,))
        names = {r[0] for r in c.execute("SELECT name FROM src.sqlite_master WHERE type='table'")}
        for t in tables:
            if t.name not in names:
                continue
            cols = [x[0] for x in t.cols if c.execute("SELECT 1 FROM pragma_table_info(?, 'src') WHERE name=?", (t.name, x[0])).fetchone()]
            if cols:
                l = ",".join(map(q, cols))
                c.execute(f"INSERT OR IGNORE INTO main.{q(t.name)} ({l}) SELECT {l} FROM src.{q(t.name)}")
        c.execute("DETACH src")
    for s in sql:
        c.execute(s)
    return c


def build(ctx):
    rng = ctx.rng
    gpkg = rng.random() < 0.5
    opts = {"tables": rng.choice([1, 2, 3, 4])}
    tables = dbgen.gen_gpkg_schema(rng, opts) if gpkg else dbgen.gen_schema(rng, opts)
    for t in tables:
        t.zm = rng.choice(["0,0", "0,0", "1,0", "0,1", "1,1"])
        t.srs = rng.choice([4326, 4326, 3857, 0, -1])
    base = ctx.path("base.db")
    make(rng, ctx, tables, gpkg, base).close()
    return tables, gpkg, base


def attrs(path):
    """the compared attributes, read with Python: what a difference means"""
    c = dbgen.connect(path)
    try:
        tn = dbgen.tables_of(c)
        has = lambda n: c.execute("SELECT 1 FROM sqlite_master WHERE type='table' AND name=?", (n,)).fetchone()
        out = {}
        for t in tn:
            cols = [(r[1], r[2], bool(r[3]), bool(r[5])) for r in c.execute("SELECT * FROM pragma_table_info(?)", (t,))]
            g = crs = None
            if has("gpkg_geometry_columns"):
                g = c.execute("SELECT column_name, geometry_type_name, srs_id, z, m FROM gpkg_geometry_columns WHERE table_name=?", (t,)).fetchone()
                if g and g[2] != -1:
                    crs = c.execute("SELECT organization, organization_coordsys_id, definition FROM gpkg_spatial_ref_sys WHERE srs_id=?", (g[2],)).fetchone()
            out[t] = (cols, g, crs)
        return out
    finally:
        c.close()


def edits(rng, path, tables):
    c = dbgen.connect(path)
    c.execute("PRAGMA synchronous=OFF")
    c.execute("BEGIN")
    for t in tables:
        if t.pk:
            dbgen.random_edits(rng, c, t, rng.choice([0, 1, 5]))
    c.execute("COMMIT")
    c.close()


def refused(ctx, i):
    rng = ctx.rng
    tables, gpkg, base = build(ctx)
    P = ctx.path
    for f in rng.sample(REFUSED, 6):
        ts = copy.deepcopy(tables)
        if any(t.gen for t in ts) and f in (m_type,):
            for t in ts:
                t.gen = []
        mod = P("mod.db")
        if os.path.exists(mod):
            os.unlink(mod)
        sql = f(rng, ts, gpkg)
        if sql is None:
            continue
        try:
            c = make(rng, ctx, ts, gpkg, mod, sql, src=base)
        except sqlite3.DatabaseError:
            continue              # Python's SQLite does not take this schema
        c.close()
        if rng.random() < 0.5:
            try:
                edits(rng, mod, [t for t in ts if t.pk])
            except sqlite3.DatabaseError:
                pass
        a, b = attrs(base), attrs(mod)
        if a == b:
            ctx.count("no difference:" + f.__name__)
            continue
        before = read(base), read(mod)
        for x, y, d in ((base, mod, "forward"), (mod, base, "backward")):
            o = P("o.diff")
            r = ctx.call("createChangeset", x, y, o)
            if r.rc == 0:
                ctx.fail("accepted:" + f.__name__, f"createChangeset accepted schemas that differ ({f.__name__}, {d})")
            if r.rc != 1 or not r.errors():
                ctx.fail("how:" + f.__name__, f"createChangeset of different schemas: rc {r.rc}, errors {r.errors()}")
            ctx.sig("refused", f.__name__, d, len(ts), gpkg)
            ctx.count("refused:" + f.__name__)
        r = ctx.call("createChangesetEx", "sqlite", None, base, mod, P("o.diff"))
        if r.rc == 0:
            ctx.fail("accepted:" + f.__name__, f"createChangesetEx accepted schemas that differ ({f.__name__})")
        # a rebase that starts with such a pair is refused too and leaves the database alone
        shutil.copyfile(mod, P("m2.db"))
        w = dbgen.full_dump(P("m2.db"))
        r = ctx.call("rebase", base, base, P("m2.db"), P("conf.json"))
        if dbgen.full_dump(P("m2.db")) != w:
            ctx.fail("rebase", f"rebase of a database with another schema ({f.__name__}) changed it (rc {r.rc})")
        if (read(base), read(mod)) != before:
            ctx.fail("input", f"inputs changed ({f.__name__})")
        # and so is applying a changeset of the one to the other where columns or keys differ
        applied(ctx, base, mod, a, b, f.__name__)


def applied(ctx, src, dst, a, b, what):
    """entries for tables of src on dst: refused when dst has no such table or other columns or keys"""
    rng = ctx.rng
    P = ctx.path
    for t in a:
        if not any(c[3] for c in a[t][0]):
            continue
        n = len(a[t][0])
        pk = tuple(int(c[3]) for c in a[t][0])
        fits = t in b and len(b[t][0]) == n and [c[3] for c in b[t][0]] == [bool(p) for p in pk]
        if fits or (t not in b and any(x.lower() == t.lower() for x in b)):
            continue
        row = [10 ** 6 + j for j in range(n)]
        for e in (Entry(t, pk, INSERT, None, row), Entry(t, pk, DELETE, row, None), Entry(t, pk, UPDATE, [v if p else 1 for v, p in zip(row, pk)], [UNDEF if p else 2 for p in pk])):
            if e.op == UPDATE and all(pk):
                continue
            with open(P("e.diff"), "wb") as f:
                f.write(encode([e]))
            shutil.copyfile(dst, P("t.db"))
            w = dbgen.full_dump(P("t.db"))
            r = ctx.call("applyChangeset", P("t.db"), P("e.diff"))
            if r.rc == 0:
                ctx.fail("apply:" + what, f"entry {e} was applied to a database whose table {t} is {b.get(t)}")
            if dbgen.full_dump(P("t.db")) != w:
                ctx.fail("apply-changed", f"refused entry changed the database ({what})")
            ctx.count("apply refused")


def accepted(ctx, i):
    rng = ctx.rng
    tables, gpkg, base = build(ctx)
    P = ctx.path
    for f in rng.sample(ACCEPTED, 5):
        ts = copy.deepcopy(tables)
        mod = P("mod.db")
        if os.path.exists(mod):
            os.unlink(mod)
        b2 = P("base2.db")
        shutil.copyfile(base, b2)
        sql = f(rng, ts, gpkg)
        if sql == "nokey":
            c = dbgen.connect(b2)
            c.execute("CREATE TABLE nokey (a, b)")
            c.execute("INSERT INTO nokey VALUES (1, 2)")
            c.close()
            sql = ["CREATE TABLE nokey (a, b)", "INSERT INTO nokey VALUES (1, 3), (4, 5), (4, 5)"]
        c = make(rng, ctx, ts, gpkg, mod, sql, src=b2)
        c.close()
        edits(rng, mod, ts)
        if f is a_trigger:
            pass
        for x, y in ((b2, mod), (mod, b2)):
            o = P("o.diff")
            r = ctx.call("createChangeset", x, y, o)
            if r.rc != 0:
                ctx.fail("refused:" + f.__name__, f"createChangeset refused equal schemas ({f.__name__}): {r.errors()[-1:]}")
            es = check_entries(ctx, read(o), dbgen.dump(x), dbgen.dump(y), f.__name__)
            ctx.count("accepted:" + f.__name__)
            ctx.sig("accepted", f.__name__, len(ts), gpkg, len(es))


def any_case(ctx, i):
    return (accepted if i % 3 == 0 else refused)(ctx, i)


def main(only=None):
    c = vf.Check("C16", rule="pairs of databases that differ in one schema attribute (22 kinds) or in something that does not count (13 kinds), both directions, plus apply and rebase across them; whether the attributes differ is read with Python. Non-trivial: distinct (kind, direction, shape)",
                 assumptions=["the order of the columns within a key, defaults, checks, collations and indexes are not compared attributes", "a table without a key is compared by schema only", "databases with different text encodings cannot be attached to each other by SQLite and are not tried"])
    c.run_cases(any_case, only or range(600 if vf.TIER == "quick" else 6000))
    return c.finish()
