"""Generates databases and edits through Python's sqlite3, and reads them back independently of geodiff."""
import os, random, sqlite3, struct, math, shutil
from changeset import canon, crow, UNDEF

HOSTILE = ["my table", "it's", 'quo"te', "select", "Ünï çødé 表", "semi;colon", "a.b", "per%cent%s%n", "back\\slash", "[brack]", "`tick`", "x,y", "1st", "tab\tname", "-- c", "A", "group", "x'--", "\U0001F5FA map", "%q%w", "new\nline", "my_rtree_notes", "not_gpkg_ogr_contents", "xsqlite_y", "agpkg_x", "RTREE_up", "trigger_insert_feature_count_", "rtree"]
PLAIN = ["roads", "trees", "poles", "points", "survey", "notes", "parcels", "t1", "obs"]
COLS = ["name", "rating", "note", "height", "kind", "photo", "owner", "code", "val", "when", "ok", "count"]
TEXTS = ["", "a", "feature", "žluťoučký kůň", "line1\nline2", "q\"uote'", "back\\slash", "tab\there", "\r\n", "emoji \U0001F600", "null", "NULL", "0", "12", " lead", "trail ", "ctrl\x01\x1f\x7f", "</x>", "%s%n%d", "\u2028\ufeff", "{\"a\": [1]}", "A", "a\u0301", "ß", "12.0", "1e5", "-0"]


def text(rng, nul=True):
    r = rng.random()
    if r < 0.45:
        return rng.choice(TEXTS)
    if r < 0.5 and nul:
        return rng.choice(["a\0b", "\0", "a\0c", "abc\0", "x\0y\0z", "abc"])
    if r < 0.9:
        return "".join(rng.choice("abcdefghij XYZ0123456789-_'\"") for _ in range(rng.randint(0, 14)))
    if r < 0.98:
        return rng.choice("xyz") * rng.choice([126, 127, 128, 129, 255, 256, 4095])
    return rng.choice("pq") * rng.choice([16383, 16384, 20000, 70000])


def intval(rng):
    r = rng.random()
    if r < 0.6:
        return rng.randint(-5, 30)
    if r < 0.8:
        return rng.choice([0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**63 - 1, -2**63])
    return rng.randint(-2**62, 2**62)


def realval(rng):
    r = rng.random()
    if r < 0.5:
        return round(rng.uniform(-1000, 1000), rng.randint(0, 6))
    if r < 0.8:
        return rng.choice([0.0, 1.0, -1.0, 0.1, 1e-7, -1e-7, 1e300, -1e300, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), 3.0, 1e15, 123456789.123456789, 2.0**53, 1 / 3, 1e22, -2.5])
    return struct.unpack("<d", struct.pack("<Q", rng.getrandbits(62)))[0]


def blob(rng):
    r = rng.random()
    if r < 0.8:
        return rng.choice([b"", b"\0", b"abc", b"\xff\xfe\x00", bytes(range(16)), b"GP", rng.randbytes(rng.randint(0, 40))])
    return rng.randbytes(rng.choice([127, 128, 300, 5000, 16384]))


def geom(rng, exact=None):
    """a GeoPackage geometry (POINT, sometimes LINESTRING or empty)"""
    x, y = round(rng.uniform(-180, 180), 4), round(rng.uniform(-90, 90), 4)
    r = rng.random()
    hdr = b"GP\0\x01" + struct.pack("<i", 4326)
    if r < 0.75:
        return hdr + b"\x01" + struct.pack("<Idd", 1, x, y)
    if r < 0.9:
        pts = [(x + i * 0.5, y - i * 0.25) for i in range(rng.randint(2, 5))]
        env = struct.pack("<dddd", min(p[0] for p in pts), max(p[0] for p in pts), min(p[1] for p in pts), max(p[1] for p in pts))
        return b"GP\0\x03" + struct.pack("<i", 4326) + env + b"\x01" + struct.pack("<II", 2, len(pts)) + b"".join(struct.pack("<dd", *p) for p in pts)
    return b"GP\0\x11" + struct.pack("<i", 4326) + b"\x01" + struct.pack("<Idd", 1, math.nan, math.nan)


def geom_valid(b):
    """is b a GeoPackage geometry (of the kinds geom() makes)"""
    if not isinstance(b, bytes) or len(b) < 8 or b[:2] != b"GP":
        return False
    env = (b[3] >> 1) & 7
    if env not in (0, 1) or len(b) < 8 + 32 * env:
        return False
    return bool(b[3] & 0x10) or env == 1 or (len(b) >= 29 and b[8:13] == b"\x01\x01\0\0\0")


def geom_bounds(b):
    """independent of the library's shim: bounds of what geom() makes, None for empty"""
    if not geom_valid(b) or b[3] & 0x10:
        return None
    if (b[3] >> 1) & 7 == 1:
        return struct.unpack("<dddd", b[8:40])
    x, y = struct.unpack("<dd", b[13:29])
    return (x, x, y, y)


# decl type -> value family
TYPES = [("INTEGER", "int"), ("INT", "int"), ("MEDIUMINT", "int"), ("BIGINT", "int"), ("BOOLEAN", "bool"), ("REAL", "real"), ("DOUBLE", "real"), ("FLOAT", "real"),
         ("TEXT", "text"), ("TEXT(20)", "text"), ("VARCHAR(30)", "text"), ("BLOB", "blob"), ("DATE", "date"), ("DATETIME", "date"), ("NUMERIC", "num"), ("", "any"), ("JSON", "text")]


STRICT_GEOM = False      # geometry columns hold geometries or null only


def value(rng, fam, notnull=False, nul=True):
    if not notnull and rng.random() < 0.12:
        return None
    if fam == "uniq":      # never used twice: the order in which changes are applied does not matter then
        return "u%016x" % rng.getrandbits(64)
    if rng.random() < 0.03 and not (fam == "geom" and STRICT_GEOM):
        fam = rng.choice(["int", "real", "text", "blob"])
    if fam == "int":
        return intval(rng)
    if fam == "bool":
        return rng.randint(0, 1)
    if fam == "real":
        return realval(rng)
    if fam == "text":
        return text(rng, nul)
    if fam == "blob":
        return blob(rng)
    if fam == "date":
        return "20%02d-%02d-%02dT%02d:00:00.%03dZ" % (rng.randint(0, 30), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 999))
    if fam == "num":
        return rng.choice([intval, realval])(rng)
    if fam == "geom":
        return geom(rng)
    return rng.choice([intval, realval, text, blob])(rng)


def near(rng, v):
    """a value next to v, of the same type (mostly)"""
    if isinstance(v, int):
        if abs(v) < 2 ** 53 and rng.random() < 0.2:
            return float(v)
        return v - 1 if v == 2 ** 63 - 1 or (v > -2 ** 63 and rng.random() < 0.5) else v + 1
    if isinstance(v, float):
        w = math.nextafter(v, rng.choice([math.inf, -math.inf]))
        return w if w else v + 1
    if isinstance(v, str):
        return rng.choice([v + " ", v.swapcase(), v[:-1], v + "\u0301", v[::-1]])
    if isinstance(v, bytes):
        return rng.choice([v + b"\0", v[:-1], v[:-1] + bytes([v[-1] ^ 1]) if v else b"\1"])
    return v


def q(n):
    return '"' + n.replace('"', '""') + '"'


class Table:
    def __init__(self, name, cols, pk, tail="", autoinc=False, geomcol=None):
        self.name, self.cols, self.pk, self.tail, self.autoinc, self.geomcol = name, cols, pk, tail, autoinc, geomcol
        self.constraints = []
        self.gen = []        # generated columns: (position, definition)
        self.strict = False

    # cols: list of [name, decl, notnull, family, extra]
    def ddl(self):
        parts = []
        for i, (n, d, nn, _f, ex) in enumerate(self.cols):
            s = q(n) + " " + d
            if self.pk == [i] and d.upper() == "INTEGER" and not self.tail:
                s += " PRIMARY KEY" + (" AUTOINCREMENT" if self.autoinc else "")
            if nn:
                s += " NOT NULL"
            if ex:
                s += " " + ex
            parts.append(s)
        if self.pk and not (len(self.pk) == 1 and self.cols[self.pk[0]][1].upper() == "INTEGER" and not self.tail):
            parts.append("PRIMARY KEY (" + ", ".join(q(self.cols[i][0]) for i in self.pk) + ")")
        for pos, s in self.gen:
            parts.insert(min(pos, len(self.cols)), s)
        parts += self.constraints
        opts = [x for x in (self.tail.strip(), "STRICT" if self.strict else "") if x]
        return f"CREATE TABLE {q(self.name)} ({', '.join(parts)})" + (" " if opts else "") + ", ".join(opts)

    def pkfam(self, i):
        return self.cols[i][3]


def gen_table(rng, name, opts):
    ncol = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 8])
    if opts.get("wide") and rng.random() < 0.05:
        ncol = rng.choice([60, 127, 128, 140])
    cn = []
    for i in range(ncol):
        base = rng.choice(COLS) if rng.random() < 0.75 else rng.choice(HOSTILE)
        while base.lower() in [c.lower() for c in cn] or base.lower() == "fid":
            base = base + str(len(cn))
        cn.append(base)
    aside = random.Random(f"{name!r} {cn!r}")
    if opts.get("hostile", 1) > 0 and aside.random() < 0.02:
        cn[aside.randrange(ncol)] = ""
    pkstyle = opts.get("pk") or rng.choice(["int"] * 8 + ["autoinc"] * 3 + ["text", "comp", "comp", "intnorowid", "blob", "all", "worowid", "real", "pklast", "bigint"])
    if opts.get("noreal") and pkstyle == "real":
        pkstyle = "int"
    cols = []
    for n in cn:
        d, f = rng.choice(TYPES)
        if opts.get("noreal") and f == "real":
            d = ""
        nn = rng.random() < 0.1
        ex = ""
        r = rng.random()
        if r < 0.04 and f in ("text", "any"):
            ex = "COLLATE " + rng.choice(["NOCASE", "RTRIM", "BINARY"])
        elif r < 0.07:
            ex = "DEFAULT " + rng.choice(["7", "'dflt'", "NULL", "1.5", "x'00ff'", "CURRENT_TIMESTAMP"])
            if nn and ex == "DEFAULT NULL":
                ex = ""
        elif r < 0.09:
            ex = f"CHECK (length({q(n)}) < 1000000 OR {q(n)} IS NULL)"
        elif r < 0.11:
            d, f, ex = "TEXT", "uniq", "UNIQUE"
        cols.append([n, d, nn, f, ex])
    tail, auto, pk = "", False, []
    if pkstyle in ("int", "autoinc", "pklast", "bigint"):
        c = ["fid", "INTEGER", rng.random() < 0.5, "int", ""]
        if pkstyle == "pklast":
            cols.append(c)
            pk = [len(cols) - 1]
        else:
            pos = rng.choice([0, 0, 0, rng.randint(0, len(cols))])
            cols.insert(pos, c)
            pk = [pos]
        auto = pkstyle == "autoinc"
    elif pkstyle == "text":
        cols.insert(0, ["fid", "TEXT", rng.random() < 0.6, "text", "COLLATE " + rng.choice(["NOCASE", "RTRIM"]) if opts.get("collpk") else ""])
        pk = [0]
    elif pkstyle == "blob":
        cols.insert(0, ["fid", "BLOB", True, "blob", ""])
        pk = [0]
    elif pkstyle == "real":
        cols.insert(0, ["fid", "REAL", True, "real", ""])
        pk = [0]
    elif pkstyle == "intnorowid":
        cols.insert(0, ["fid", "INT", True, "int", ""])
        pk = [0]
    elif pkstyle == "worowid":
        cols.insert(0, ["fid", "INTEGER", True, "int", ""])
        pk = [0]
        tail = " WITHOUT ROWID"
    elif pkstyle == "comp":
        cols.insert(0, ["k1", "INTEGER", True, "int", ""])
        cols.insert(rng.randint(1, len(cols)), ["k2", "TEXT", True, "text", ""])
        pk = sorted([0, [c[0] for c in cols].index("k2")])
        if rng.random() < 0.4:
            pk.reverse()      # declared key order differs from column order
        if rng.random() < 0.3:
            tail = " WITHOUT ROWID"
    elif pkstyle == "all":
        cols = [["k1", "INTEGER", True, "int", ""], ["k2", "TEXT", True, "text", ""]]
        pk = [0, 1]
    t = Table(name, cols, pk, tail, auto)
    t.pkstyle = pkstyle
    t.collpk = pkstyle == "text" and bool(opts.get("collpk"))
    if rng.random() < 0.04 and opts.get("strict", True) and pkstyle in ("int", "autoinc", "pklast", "bigint"):
        # a STRICT table; ANY takes each value as it is
        t.strict = True
        for i, c in enumerate(t.cols):
            if i not in pk:
                c[1] = "TEXT" if c[3] == "uniq" else "ANY"
                if c[3] != "uniq":
                    c[3] = "any"
    if opts.get("generated", True) and not t.strict and rng.random() < 0.06:
        src = rng.choice(cols)
        for i in range(rng.choice([1, 1, 2])):
            t.gen.append((rng.randint(0, len(cols)), f"{q('gen%d' % i)} {rng.choice(['TEXT', 'INTEGER', ''])} GENERATED ALWAYS AS ({rng.choice(['typeof', 'length', 'quote', 'hex'])}({q(src[0])})) {rng.choice(['VIRTUAL', 'STORED', ''])}"))
    return t


def gen_names(rng, n, hostile=0.35):
    out = []
    while len(out) < n:
        b = rng.choice(HOSTILE) if rng.random() < hostile else rng.choice(PLAIN)
        while b.lower() in [o.lower() for o in out]:
            b += str(len(out))
        out.append(b)
    aside = random.Random(repr(out))
    if hostile > 0 and aside.random() < 0.03:
        out[aside.randrange(n)] = ""
    return out


def gen_schema(rng, opts=None):
    opts = opts or {}
    n = opts.get("tables") or rng.choice([1, 1, 2, 2, 3, 4])
    out = [gen_table(rng, nm, opts) for nm in gen_names(rng, n, opts.get("hostile", 0.35))]
    for i, t in enumerate(out):
        if rng.random() < 0.1:
            c = q(rng.choice(t.cols)[0])
            t.extra_objects = [rng.choice([f"CREATE INDEX {q('ix %d' % i)} ON {q(t.name)} ({c})", f"CREATE VIEW {q('view %d' % i)} AS SELECT {c} FROM {q(t.name)}",
                                           f"CREATE INDEX {q('pix%d' % i)} ON {q(t.name)} ({c} DESC) WHERE {c} IS NOT NULL"])]
    return out


# ---------------------------------------------------------------- connections
def connect(path, **kw):
    c = sqlite3.connect(path, isolation_level=None, **kw)
    c.text_factory = lambda b: b.decode("utf-8", "surrogateescape")
    def bd(i):
        def f(b):
            r = geom_bounds(b)
            return None if r is None else r[i]
        return f
    c.create_function("ST_IsEmpty", 1, lambda b: int(geom_bounds(b) is None) if geom_valid(b) else None, deterministic=True)
    for i, n in enumerate(("ST_MinX", "ST_MaxX", "ST_MinY", "ST_MaxY")):
        c.create_function(n, 1, bd(i), deterministic=True)
    return c


GPKG_META = [
    "CREATE TABLE gpkg_spatial_ref_sys (srs_name TEXT NOT NULL,srs_id INTEGER NOT NULL PRIMARY KEY,organization TEXT NOT NULL,organization_coordsys_id INTEGER NOT NULL,definition  TEXT NOT NULL,description TEXT)",
    "CREATE TABLE gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY,data_type TEXT NOT NULL,identifier TEXT UNIQUE,description TEXT DEFAULT '',last_change DATETIME NOT NULL DEFAULT (strftime('%Y-%m-%dT%H:%M:%fZ','now')),min_x DOUBLE, min_y DOUBLE,max_x DOUBLE, max_y DOUBLE,srs_id INTEGER,CONSTRAINT fk_gc_r_srs_id FOREIGN KEY (srs_id) REFERENCES gpkg_spatial_ref_sys(srs_id))",
    "CREATE TABLE gpkg_ogr_contents(table_name TEXT NOT NULL PRIMARY KEY,feature_count INTEGER DEFAULT NULL)",
    "CREATE TABLE gpkg_geometry_columns (table_name TEXT NOT NULL,column_name TEXT NOT NULL,geometry_type_name TEXT NOT NULL,srs_id INTEGER NOT NULL,z TINYINT NOT NULL,m TINYINT NOT NULL,CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name),CONSTRAINT uk_gc_table_name UNIQUE (table_name),CONSTRAINT fk_gc_tn FOREIGN KEY (table_name) REFERENCES gpkg_contents(table_name),CONSTRAINT fk_gc_srs FOREIGN KEY (srs_id) REFERENCES gpkg_spatial_ref_sys (srs_id))",
    "CREATE TABLE gpkg_tile_matrix_set (table_name TEXT NOT NULL PRIMARY KEY,srs_id INTEGER NOT NULL,min_x DOUBLE NOT NULL,min_y DOUBLE NOT NULL,max_x DOUBLE NOT NULL,max_y DOUBLE NOT NULL)",
    "CREATE TABLE gpkg_tile_matrix (table_name TEXT NOT NULL,zoom_level INTEGER NOT NULL,matrix_width INTEGER NOT NULL,matrix_height INTEGER NOT NULL,tile_width INTEGER NOT NULL,tile_height INTEGER NOT NULL,pixel_x_size DOUBLE NOT NULL,pixel_y_size DOUBLE NOT NULL,CONSTRAINT pk_ttm PRIMARY KEY (table_name, zoom_level))",
    "CREATE TRIGGER 'gpkg_tile_matrix_zoom_level_insert' BEFORE INSERT ON 'gpkg_tile_matrix' FOR EACH ROW BEGIN SELECT RAISE(ABORT, 'insert on table ''gpkg_tile_matrix'' violates constraint: zoom_level cannot be less than 0') WHERE (NEW.zoom_level < 0); END",
    "CREATE TABLE gpkg_extensions (table_name TEXT,column_name TEXT,extension_name TEXT NOT NULL,definition TEXT NOT NULL,scope TEXT NOT NULL,CONSTRAINT ge_tce UNIQUE (table_name, column_name, extension_name))",
    "INSERT INTO gpkg_spatial_ref_sys VALUES ('Undefined cartesian SRS',-1,'NONE',-1,'undefined','undefined cartesian coordinate reference system')",
    "INSERT INTO gpkg_spatial_ref_sys VALUES ('Undefined geographic SRS',0,'NONE',0,'undefined','undefined geographic coordinate reference system')",
    "INSERT INTO gpkg_spatial_ref_sys VALUES ('Web',3857,'EPSG',3857,'PROJCS[\"WGS 84 / Pseudo-Mercator\"]',NULL)",
    "INSERT INTO gpkg_spatial_ref_sys VALUES ('WGS 84 geodetic',4326,'EPSG',4326,'GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563]]]','longitude/latitude')",
]


def gpkg_layer_sql(t, rtree=True):
    """what GDAL writes besides the table itself"""
    n, g = t.name, t.cols[t.geomcol][0]
    s = lambda x: x.replace("'", "''")
    out = [f"INSERT INTO gpkg_contents VALUES ('{s(n)}','features','{s(n)}','','2019-06-18T14:52:50.928Z',NULL,NULL,NULL,NULL,4326)",
           f"INSERT INTO gpkg_geometry_columns VALUES ('{s(n)}','{s(g)}','GEOMETRY',{getattr(t, 'srs', 4326)},{getattr(t, 'zm', '0,0')})",
           f"INSERT INTO gpkg_ogr_contents VALUES ('{s(n)}',0)"]
    pk = t.cols[t.pk[0]][0]
    T, G, P, RT = q(n), q(g), q(pk), q(f"rtree_{n}_{g}")
    b = f"ST_MinX(NEW.{G}), ST_MaxX(NEW.{G}),ST_MinY(NEW.{G}), ST_MaxY(NEW.{G})"
    tn = lambda x: q(f"rtree_{n}_{g}_{x}")
    if rtree:
        out += [f"INSERT INTO gpkg_extensions VALUES ('{s(n)}','{s(g)}','gpkg_rtree_index','http://www.geopackage.org/spec120/#extension_rtree','write-only')",
                f"CREATE VIRTUAL TABLE {RT} USING rtree(id, minx, maxx, miny, maxy)",
                f"CREATE TRIGGER {tn('insert')} AFTER INSERT ON {T} WHEN (new.{G} NOT NULL AND NOT ST_IsEmpty(NEW.{G})) BEGIN INSERT OR REPLACE INTO {RT} VALUES (NEW.{P},{b}); END",
                f"CREATE TRIGGER {tn('update1')} AFTER UPDATE OF {G} ON {T} WHEN OLD.{P} = NEW.{P} AND (NEW.{G} NOTNULL AND NOT ST_IsEmpty(NEW.{G})) BEGIN INSERT OR REPLACE INTO {RT} VALUES (NEW.{P},{b}); END",
                f"CREATE TRIGGER {tn('update2')} AFTER UPDATE OF {G} ON {T} WHEN OLD.{P} = NEW.{P} AND (NEW.{G} ISNULL OR ST_IsEmpty(NEW.{G})) BEGIN DELETE FROM {RT} WHERE id = OLD.{P}; END",
                f"CREATE TRIGGER {tn('update3')} AFTER UPDATE ON {T} WHEN OLD.{P} != NEW.{P} AND (NEW.{G} NOTNULL AND NOT ST_IsEmpty(NEW.{G})) BEGIN DELETE FROM {RT} WHERE id = OLD.{P}; INSERT OR REPLACE INTO {RT} VALUES (NEW.{P},{b}); END",
                f"CREATE TRIGGER {tn('update4')} AFTER UPDATE ON {T} WHEN OLD.{P} != NEW.{P} AND (NEW.{G} ISNULL OR ST_IsEmpty(NEW.{G})) BEGIN DELETE FROM {RT} WHERE id IN (OLD.{P}, NEW.{P}); END",
                f"CREATE TRIGGER {tn('delete')} AFTER DELETE ON {T} WHEN old.{G} NOT NULL BEGIN DELETE FROM {RT} WHERE id = OLD.{P}; END"]
    out += [f"CREATE TRIGGER {q('trigger_insert_feature_count_' + n)} AFTER INSERT ON {T} BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count + 1 WHERE lower(table_name) = lower('{s(n)}'); END",
            f"CREATE TRIGGER {q('trigger_delete_feature_count_' + n)} AFTER DELETE ON {T} BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count - 1 WHERE lower(table_name) = lower('{s(n)}'); END"]
    return out


def gen_gpkg_schema(rng, opts=None):
    opts = dict(opts or {})
    opts["pk"] = None
    opts["strict"] = False
    out = []
    for nm in gen_names(rng, rng.choice([1, 1, 2, 3]), opts.get("hostile", 0.25)):
        o = dict(opts)
        o["pk"] = rng.choice(["int", "autoinc"])
        t = gen_table(rng, nm, o)
        gi = rng.randint(1, len(t.cols)) if t.pk == [0] else len(t.cols)
        if t.pk[0] >= gi:
            gi = len(t.cols)
        t.cols.insert(gi, ["geom", rng.choice(["POINT", "GEOMETRY", "LINESTRING", "POLYGON"]), False, "geom", ""])
        t.geomcol = gi
        t.pkstyle = "int"
        t.srs = rng.choice([4326, 4326, 4326, 3857, 0, -1])
        out.append(t)
    return out


def create_db(path, tables, gpkg=False, pagesize=None, wal=False, encoding=None):
    c = connect(path)
    if pagesize:
        c.execute(f"PRAGMA page_size={pagesize}")
    if encoding:
        c.execute(f"PRAGMA encoding='{encoding}'")
    if wal:
        c.execute("PRAGMA journal_mode=WAL")
    c.execute("PRAGMA synchronous=OFF")
    c.execute("BEGIN")
    if gpkg:
        for s in GPKG_META:
            c.execute(s)
    for t in tables:
        c.execute(t.ddl())
        if gpkg and t.geomcol is not None:
            for s in gpkg_layer_sql(t):
                c.execute(s)
        r = getattr(t, "extra_objects", None)
        for s in r or []:
            c.execute(s)
    c.execute("COMMIT")
    return c


def new_row(rng, t, keyrange=None, nul=True):
    row = []
    for i, (n, d, nn, f, _e) in enumerate(t.cols):
        if i in t.pk:
            if f == "int":
                if getattr(t, "pkstyle", "") == "bigint":
                    row.append(rng.choice([rng.randint(1, 20), rng.randint(2**31 - 3, 2**31 + 3), rng.randint(2**33, 2**33 + 5), -rng.randint(1, 5), 2**63 - 1, -2**63]))
                else:
                    row.append(rng.randint(*(keyrange or (1, 40))) if rng.random() < 0.97 else rng.choice([-1, 0, 1000, 2**31, 10**12]))
            else:
                row.append(value(rng, f, nn or rng.random() < 0.5, nul))
        else:
            row.append(value(rng, f, nn, nul))
    return row


def insert(c, t, row, verb="INSERT"):
    c.execute(f"{verb} INTO {q(t.name)} VALUES ({','.join('?' * len(row))})", row)


def populate(rng, c, t, n, keyrange=None, nul=True):
    done = 0
    for _ in range(n):
        try:
            insert(c, t, new_row(rng, t, keyrange, nul))
            done += 1
        except (sqlite3.IntegrityError, OverflowError):
            pass
    return done


def pkwhere(t):
    return " AND ".join(f"{q(t.cols[i][0])} IS ?" for i in sorted(t.pk))


def random_edits(rng, c, t, n, ops=("i", "u", "d"), keyrange=None, nul=True):
    """n random edits on table t; returns counts by kind"""
    done = {"i": 0, "u": 0, "d": 0}
    for _ in range(n):
        op = rng.choice(ops)
        if op == "i":
            try:
                insert(c, t, new_row(rng, t, keyrange, nul))
                done["i"] += 1
            except sqlite3.IntegrityError:
                pass
            continue
        cols = ",".join(q(t.cols[i][0]) for i in sorted(t.pk))
        rows = c.execute(f"SELECT {cols} FROM {q(t.name)} ORDER BY {cols}").fetchall()
        if not rows:
            continue
        k = rng.choice(rows)
        if op == "d":
            c.execute(f"DELETE FROM {q(t.name)} WHERE {pkwhere(t)}", k)
            done["d"] += 1
        else:
            if getattr(t, "collpk", False) and k[0] is not None and rng.random() < 0.5:
                # the key stays the same for its collation, the text changes
                k2 = str(k[0]).swapcase() if "NOCASE" in t.cols[t.pk[0]][4] else rng.choice([str(k[0]).rstrip(" "), str(k[0]) + " "])
                if isinstance(k[0], str) and k2 != k[0]:
                    c.execute(f"UPDATE {q(t.name)} SET {q(t.cols[t.pk[0]][0])}=? WHERE {pkwhere(t)}", (k2, *k))
                    done["u"] += 1
                    k = (k2,)
            cand = [i for i in range(len(t.cols)) if i not in t.pk]
            if not cand:
                continue
            sel = rng.sample(cand, min(len(cand), rng.choice([1, 1, 1, 2, 3, len(cand)])))
            vals = [value(rng, t.cols[i][3], t.cols[i][2], nul) for i in sel]
            # values as close to the present ones as possible (drawn aside, so that the rest stays as it is)
            aside = random.Random(f"{t.name!r} {k!r} {n} {_}")
            if aside.random() < 0.2:
                cur = c.execute("SELECT " + ",".join(q(t.cols[i][0]) for i in sel) + f" FROM {q(t.name)} WHERE {pkwhere(t)}", k).fetchone()
                vals = [near(aside, v) if v is not None and t.cols[i][3] not in ("geom", "uniq", "bool") else w for i, v, w in zip(sel, cur or [None] * len(sel), vals)]
            try:
                c.execute(f"UPDATE {q(t.name)} SET " + ", ".join(f"{q(t.cols[i][0])}=?" for i in sel) + f" WHERE {pkwhere(t)}", (*vals, *k))
                done["u"] += 1
            except sqlite3.IntegrityError:
                pass
    return done


# ---------------------------------------------------------------- reading
SKIP = ("gpkg_ogr_contents", "rtree_")


def tables_of(c, schema="main"):
    """tables geodiff compares (documented exclusions: virtual tables, rtree shadow, ogr contents, sqlite internals)"""
    out = []
    for (n, sql) in c.execute(f"SELECT name, sql FROM {schema}.sqlite_master WHERE type='table' ORDER BY name"):
        if n.startswith(SKIP) or n.startswith("sqlite_") or (sql or "").upper().startswith("CREATE VIRTUAL"):
            continue
        out.append(n)
    return out


def pkcols(c, t):
    info = c.execute(f"SELECT cid, name, pk FROM pragma_table_info(?) ORDER BY cid", (t,)).fetchall()
    return [i[1] for i in info], [bool(i[2]) for i in info]


def dump(path, keyed=True):
    """{table: {'cols', 'pk', 'rows': {key: row}}} with exact types; tables without a key: sorted list of rows"""
    c = connect(f"file:{_uri(path)}?mode=ro", uri=True)
    try:
        return dump_conn(c)
    finally:
        c.close()


def _uri(p):
    return p.replace("%", "%25").replace("?", "%3f").replace("#", "%23")


def dump_conn(c):
    out = {}
    for t in tables_of(c):
        cols, pk = pkcols(c, t)
        rows = c.execute(f"SELECT {','.join(q(x) for x in cols)} FROM {q(t)}").fetchall()
        if any(pk):
            # rows with a null key can't be identified: documented as ignored
            out[t] = {"cols": cols, "pk": pk, "rows": {tuple(canon(v) for v, p in zip(r, pk) if p): r for r in rows if not any(p and v is None for v, p in zip(r, pk))},
                      "nullkeys": [r for r in rows if any(p and v is None for v, p in zip(r, pk))]}
        else:
            out[t] = {"cols": cols, "pk": pk, "list": sorted((crow(r) for r in rows), key=repr)}
    return out


def norm(d):
    """comparable form of a dump"""
    return {t: ({k: crow(r) for k, r in v["rows"].items()} if "rows" in v else v["list"]) for t, v in d.items()}


def diffdesc(a, b, limit=4):
    """short text of how two dumps differ"""
    a, b = norm(a), norm(b)
    out = []
    for t in sorted(set(a) | set(b)):
        x, y = a.get(t), b.get(t)
        if x == y:
            continue
        if not isinstance(x, dict) or not isinstance(y, dict):
            out.append(f"{t}: {str(x)[:80]} vs {str(y)[:80]}")
            continue
        for k in sorted(set(x) | set(y), key=repr):
            if x.get(k) != y.get(k):
                out.append(f"{t}{k}: {str(x.get(k))[:160]} vs {str(y.get(k))[:160]}")
    return f"{len(out)} rows differ: " + "; ".join(out[:limit])


def schema_of(path):
    c = connect(f"file:{_uri(path)}?mode=ro", uri=True)
    try:
        return sorted((str(r[0]), str(r[1]), str(r[2]), str(r[3])) for r in c.execute("SELECT type,name,tbl_name,sql FROM sqlite_master"))
    finally:
        c.close()


def full_dump(path):
    """every table including rtree and ogr contents, plus the schema"""
    c = connect(f"file:{_uri(path)}?mode=ro", uri=True)
    try:
        out = {"#schema": sorted((str(r[0]), str(r[1]), str(r[2]), str(r[3])) for r in c.execute("SELECT type,name,tbl_name,sql FROM sqlite_master"))}
        for (n,) in c.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
            if n == "sqlite_stat1":
                continue
            out[n] = sorted((crow(r) for r in c.execute(f"SELECT * FROM {q(n)}")), key=repr)
        return out
    finally:
        c.close()


def integrity(path):
    c = connect(path)
    try:
        # SQLite 3.45 reports "TEXT value in t.c" for sound tables that have
        # generated columns in front; values cannot get a wrong affinity
        # through SQL statements, so that class of messages is left out.
        rows = [r for r in c.execute("PRAGMA integrity_check")
                if " value in " not in str(r[0])]
        return rows or [("ok",)]
    finally:
        c.close()


def checkpoint(c):
    c.execute("PRAGMA wal_checkpoint(TRUNCATE)")


def gen_pair(rng, ctx, opts=None):
    """base and modified database files; returns (base, modified, tables, edits)"""
    opts = opts or {}
    base, mod = ctx.path("base.db"), ctx.path("mod.db")
    gpkg = opts.get("gpkg", rng.random() < 0.4)
    tables = gen_gpkg_schema(rng, opts) if gpkg else gen_schema(rng, opts)
    c = create_db(base, tables, gpkg, rng.choice([None, None, 512, 1024, 65536]), encoding=opts.get("encoding"))
    c.execute("PRAGMA synchronous=OFF")
    c.execute("BEGIN")
    rows = 0
    nul = opts.get("nul", True)
    for t in tables:
        rows += populate(rng, c, t, opts.get("rows") or rng.choice([0, 1, 3, 8, 15, 30]), nul=nul)
    c.execute("COMMIT")
    c.close()
    shutil.copyfile(base, mod)
    c = connect(mod)
    c.execute("PRAGMA synchronous=OFF")
    c.execute("BEGIN")
    ed = {"i": 0, "u": 0, "d": 0}
    for t in tables:
        if rng.random() < 0.85:
            k = opts.get("edits") or rng.choice([0, 1, 2, 4, 8, 20])
            for a, b in random_edits(rng, c, t, k, opts.get("ops", rng.choice([("i", "u", "d")] * 3 + [("i",), ("u",), ("d",), ("u", "d"), ("i", "d")])), nul=nul).items():
                ed[a] += b
    if gpkg and rng.random() < 0.6:
        c.execute("UPDATE gpkg_contents SET last_change='2020-%02d-01T00:00:00.000Z', min_x=%d" % (rng.randint(1, 12), rng.randint(-9, 9)))
        if rng.random() < 0.2:
            c.execute("INSERT INTO gpkg_spatial_ref_sys VALUES ('x', %d, 'EPSG', 1, 'def', NULL)" % rng.randint(1, 900))
    c.execute("COMMIT")
    if rng.random() < 0.15:
        c.execute("VACUUM")
    c.close()
    return base, mod, tables, ed, gpkg


# ---------------------------------------------------------------- reference diff
def ref_diff(a, b):
    """expected set of changes between two dumps: {(table, op, key, old canonical, new canonical)}"""
    out = set()
    for t in a:
        if "rows" not in a[t]:
            continue
        ra, rb, pk = a[t]["rows"], b[t]["rows"], a[t]["pk"]
        for k in rb.keys() - ra.keys():
            out.add((t, 18, k, None, crow(rb[k])))
        for k in ra.keys() - rb.keys():
            out.add((t, 9, k, crow(ra[k]), None))
        for k in ra.keys() & rb.keys():
            x, y = crow(ra[k]), crow(rb[k])
            if x == y:
                continue
            old = tuple(v if (p or v != w) else ("u",) for v, w, p in zip(x, y, pk))
            new = tuple(w if v != w else ("u",) for v, w in zip(x, y))
            out.add((t, 23, k, old, new))
    return out


def entries_set(es):
    return [(e.table, e.op, e.key(), crow(e.old), crow(e.new)) for e in es]
