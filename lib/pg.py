"""PostgreSQL schemas for the libpq stand-in (native/pgemu.cpp): generates tables and rows, reads them back from its file."""
import math, random, shutil, sqlite3, struct
import dbgen
from changeset import canon, crow

SEP = "\x1f"
NAMES = ["roads", "trees", "my_gpkg_import", "gpkgs", "GPKG_x", "my table", "it's", 'quo"te', "select", "Ünï çødé 表", "semi;colon", "a.b", "per%cent%s%n", "back\\slash", "MixedCase", "UPPER", "a", "b", "order", "user", "1st", "-- c", "new\nline", "$1", "E'x'", "gpkgish", "t;DROP"]
SCHEMAS = ["base", "Base", "mod", "My Schema", "it's", 'q"s', "select", "s1", "s2", "sch_1", "a", "Ünï", "x.y", "back\\s"]
COLS = ["name", "Rating", "note", "my col", "it's", 'c"q', "select", "a", "b", "value", "Ünï", "photo", "x.y", "per%c", "back\\c", "when", "COUNT", "1"]
# type -> family
TYPES = [("integer", "int"), ("integer", "int"), ("double precision", "real"), ("double precision", "real"), ("text", "text"), ("text", "text"), ("text", "text"), ("boolean", "bool"), ("timestamp", "ts"), ("citext", "citext"), ("real", "f32")]
GEOMS = {1: "POINT", 2: "LINESTRING", 3: "POLYGON"}


def qi(n):
    return '"' + n.replace('"', '""') + '"'


def ql(s):
    return "'" + s.replace("'", "''") + "'"


def mangle(n):
    return "".join("~" + c.lower() if "A" <= c <= "Z" else "~~" if c == "~" else c for c in n)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


class Table:
    # cols: [name, type, notnull, family]
    def __init__(self, name, cols, pk, serial):
        self.name, self.cols, self.pk, self.serial = name, cols, pk, serial
        self.srid, self.gtype, self.dim, self.indexes = None, None, "", []

    def ddl(self, schema):
        parts = []
        for i, (n, t, nn, f) in enumerate(self.cols):
            ty = "serial" if self.serial and [i] == self.pk else t
            parts.append(f"{qi(n)} {ty}" + (" NOT NULL" if nn else ""))
        # columns that were dropped leave an entry in the catalog (chosen aside, by schema and table)
        aside = random.Random(f"{schema!r} {self.name!r} {self.cols!r}")
        if aside.random() < 0.3:
            for n in range(aside.choice([1, 1, 2])):
                k = aside.randint(0, len(parts))
                parts.insert(k, qi("........pg.dropped.%d........" % (k + 1 + 50 * n)) + " integer")
        if self.pk:
            parts.append("PRIMARY KEY (" + ", ".join(qi(self.cols[i][0]) for i in self.pk) + ")")
        out = f"CREATE TABLE {qi(schema)}.{qi(self.name)} ({', '.join(parts)});"
        for n, cs in enumerate(self.indexes):
            out += f"CREATE INDEX {qi('ix_%s_%d' % (self.name, n))} ON {qi(schema)}.{qi(self.name)} ({', '.join(qi(c) for c in cs)});"
        return out

    def sqlite_ddl(self):
        parts = [f"{dbgen.q(n)} {'INTEGER' if f == 'int' else 'GEOM' if f == 'geom' else {'real': 'DOUBLE', 'f32': 'REAL', 'bool': 'BOOLEAN', 'ts': 'DATETIME'}.get(f, 'TEXT')}" + (" NOT NULL" if nn else "") for n, t, nn, f in self.cols]
        if self.pk:
            parts.append("PRIMARY KEY (" + ", ".join(dbgen.q(self.cols[i][0]) for i in self.pk) + ")")
        return f"CREATE TABLE {dbgen.q(self.name)} ({', '.join(parts)})"


def text(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice(["", "a", "A", "it's", "''", "žluťoučký", "back\\slash", "\\", "\\\\", "\\x41", "\\'", "E'x'", 'quo"te', "line\nbreak", "tab\t", "emoji \U0001F600", "NULL", "t", "12", "%s%n", "$1", "-- c", "; DROP", " lead", "trail ", "/*", "\\n", "abc\\"])
    if r < 0.97:
        return "".join(rng.choice("abcdefgh XYZ0123456789'\\\"") for _ in range(rng.randint(0, 14)))
    return rng.choice("xyz") * rng.choice([127, 128, 300, 5000])


def geom(rng, kind, srid, dim=""):
    """GeoPackage header and ISO WKB"""
    extra = len(dim)
    pack = lambda pts: b"".join(struct.pack("<%dd" % (2 + extra), *p, *[rng.randint(-500, 500) / 4 for _ in range(extra)]) for p in pts)
    code = kind + {"": 0, "Z": 1000, "M": 2000, "ZM": 3000}[dim]
    x, y = rng.randint(-1000, 1000) / 8, rng.randint(-1000, 1000) / 16
    h = b"GP\0\x01" + struct.pack("<i", srid)
    if kind == 1:
        return h + b"\x01" + struct.pack("<I", code) + pack([(x, y)])
    pts = [(x + i, y + i * 0.5) for i in range(rng.randint(2, 4))]
    if kind == 2:
        return h + b"\x01" + struct.pack("<II", code, len(pts)) + pack(pts)
    ring = [(x, y), (x + 1, y), (x + 1, y + 1), (x, y)]
    return h + b"\x01" + struct.pack("<III", code, 1, 4) + pack(ring)


def value(rng, t, i):
    n, ty, nn, f = t.cols[i]
    if not nn and i not in t.pk and rng.random() < 0.15:
        return None
    if f == "int":
        return rng.choice([rng.randint(-5, 30), rng.randint(-2**31, 2**31 - 1), 2**31 - 1, -2**31, 0])
    if f == "real":
        return rng.choice([round(rng.uniform(-1000, 1000), rng.randint(0, 6)), 0.1, 1 / 3, 1e-7, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 123456789.123456789, 2.0**53, 1e22, 3.0, 0.0, float("inf"), float("-inf"), rng.uniform(-1e6, 1e6)])
    if f == "f32":
        return rng.choice([round(rng.uniform(-999, 999), rng.randint(0, 3)), 0.1, 0.3, 1e10, -2.5e-10, 16777216.0, float("inf"), 3.0, 0.0, 1.17549e-38])
    if f == "bool":
        return rng.randint(0, 1)
    if f == "ts":
        return "20%02d-%02d-%02dT%02d:%02d:%02dZ" % (rng.randint(0, 30), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    if f == "geom":
        return geom(rng, t.gtype, t.srid, t.dim)
    return text(rng)


def lit(v, f):
    """the literal my own set-up statements use"""
    if v is None:
        return "NULL"
    if f == "bool":
        return "'t'" if v else "'f'"
    if f == "geom":
        return f"ST_GeomFromWKB('\\x{v[8:].hex()}', {struct.unpack('<i', v[4:8])[0]})"
    if isinstance(v, float):
        return "'Infinity'" if v == math.inf else "'-Infinity'" if v == -math.inf else f"'{v!r}'"
    if isinstance(v, int):
        return str(v)
    return ql(v)


def names(rng, pool, n, hostile=True):
    out = []
    while len(out) < n:
        b = rng.choice(pool)
        while b in out or b.lower() in [o.lower() for o in out]:
            b += str(len(out))
        out.append(b)
    return out


def gen_table(rng, name, opts=None):
    opts = opts or {}
    cols = [[c, *rng.choice(TYPES)] for c in names(rng, COLS, rng.choice([0, 1, 2, 3, 4, 6]))]
    cols = [[c, t, rng.random() < 0.15, f] for c, t, f in cols]
    style = opts.get("pk") or rng.choice(["serial"] * 5 + ["int", "int", "text", "comp", "none", "all"])
    pk = []
    if style in ("serial", "int"):
        pos = rng.choice([0, 0, rng.randint(0, len(cols))])
        cols.insert(pos, [rng.choice(["fid", "fid", "id", "FID", "my id", "i'd"]), "integer", True, "int"])
        pk = [pos]
    elif style == "text":
        cols.insert(0, ["key", "text", True, "text"])
        pk = [0]
    elif style == "comp":
        cols.insert(0, ["k1", "integer", True, "int"])
        cols.insert(rng.randint(1, len(cols)), ["K2", "text", True, "text"])
        pk = [0, [c[0] for c in cols].index("K2")]
    elif style == "all":
        cols = [["k1", "integer", True, "int"], ["k2", "text", True, "text"]]
        pk = [0, 1]
    if not cols:
        cols = [["x", "text", False, "text"]]
    t = Table(name, cols, pk, style == "serial")
    if opts.get("geom", rng.random() < 0.5) and style != "all":
        t.gtype, t.srid = rng.choice([1, 1, 2, 3]), rng.choice([4326, 4326, 3857, 40001, 40002, 50026, 102100])
        t.dim = rng.choice(opts.get("dims", ["", "", "", "", "Z", "M", "ZM"]))
        cols.append([rng.choice(["geometry", "geom", "Geom", "the geom"]), f"geometry({GEOMS[t.gtype]}{t.dim}, {t.srid})", False, "geom"])
    if opts.get("indexes", True) and rng.random() < 0.3:
        t.indexes = [[rng.choice(cols)[0]] for _ in range(rng.choice([1, 2]))]
    return t


def gen_rows(rng, t, n, keys=(1, 40)):
    """{key: row}, keyless: list"""
    if not t.pk:
        return [[value(rng, t, i) for i in range(len(t.cols))] for _ in range(n)]
    out = {}
    for _ in range(n):
        r = new_row(rng, t, keys)
        out[key(t, r)] = r
    return out


def new_row(rng, t, keys=(1, 40)):
    return [(rng.randint(*keys) if t.cols[i][3] == "int" else text(rng)) if i in t.pk else value(rng, t, i) for i in range(len(t.cols))]


def key(t, r):
    return tuple(canon(r[i]) for i in sorted(t.pk))


def edit(rng, t, rows, n, keys=(1, 60)):
    if not t.pk:
        return gen_rows(rng, t, rng.randint(0, 4))
    rows = {k: list(r) for k, r in rows.items()}
    for _ in range(n):
        x = rng.random()
        if x < 0.35 or not rows:
            r = new_row(rng, t, keys)
            if key(t, r) not in rows or rng.random() < 0.3:
                rows[key(t, r)] = r
        elif x < 0.55:
            del rows[rng.choice(sorted(rows, key=repr))]
        else:
            k = rng.choice(sorted(rows, key=repr))
            vals = [i for i in range(len(t.cols)) if i not in t.pk]
            if vals:
                for i in rng.sample(vals, rng.choice([1, 1, min(2, len(vals)), len(vals)])):
                    v = value(rng, t, i)
                    if t.cols[i][3] in ("citext", "text") and isinstance(rows[k][i], str) and rng.random() < 0.3:
                        v = rows[k][i].swapcase()
                    rows[k][i] = v
    return rows


def fill_sql(schema, t, rows):
    out = []
    for r in (rows.values() if isinstance(rows, dict) else rows):
        out.append(f"INSERT INTO {qi(schema)}.{qi(t.name)} ({', '.join(qi(c[0]) for c in t.cols)}) VALUES ({', '.join(lit(v, c[3]) for v, c in zip(r, t.cols))});")
    if t.serial and t.pk and rows:
        m = max(r[t.pk[0]] for r in rows.values())
        if m > 0:
            out.append(f"SELECT setval(pg_get_serial_sequence({ql(qi(schema) + '.' + qi(t.name))}, {ql(t.cols[t.pk[0]][0])}), {m});")
    return "".join(out)


class Db:
    """one emulated server"""
    def __init__(self, ctx, name="pg.db"):
        self.ctx, self.path = ctx, ctx.path(name)
        sqlite3.connect(self.path).close()
        self.info = "host=localhost user=x dbname=" + self.path

    def exec(self, sql, check=True):
        r = self.ctx.gd.cmd("pgexec", self.info, sql)
        if check and not r["ok"]:
            raise RuntimeError("set-up statement failed: " + bytes.fromhex(r["err"]).decode() + "\n" + sql[:2000])
        return [[None if v is None else bytes.fromhex(v).decode("utf-8", "surrogateescape") for v in row] for row in r["rows"]] if r["ok"] else None

    def create(self, schema, tables, rows):
        s = f"CREATE SCHEMA {qi(schema)};"
        for t in tables:
            s += t.ddl(schema) + fill_sql(schema, t, rows[t.name])
        self.exec(s)

    def conn(self):
        c = sqlite3.connect(f"file:{dbgen._uri(self.path)}?mode=ro", uri=True)
        return c

    def schemas(self):
        c = self.conn()
        r = {x[0] for x in c.execute("SELECT nspname FROM pg_namespace")}
        c.close()
        return r

    def raw(self):
        """everything, to see that nothing changed"""
        c = self.conn()
        out = {}
        for (n,) in c.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY 1"):
            out[n] = sorted(map(repr, c.execute(f'SELECT * FROM {qi(n)}')))
        c.close()
        return out

    def seq(self, schema, t):
        c = self.conn()
        n = c.execute("SELECT a.seq FROM pg_attribute a JOIN pg_class c ON c.oid=a.attrelid JOIN pg_namespace n ON n.oid=c.relnamespace WHERE nspname=? AND relname=? AND a.seq IS NOT NULL", (schema, t)).fetchone()
        out = None
        if n:
            sn = c.execute("SELECT relname FROM pg_class c JOIN pg_namespace n ON n.oid=c.relnamespace WHERE nspname=?1 AND relkind='S' AND substr(relname,1,length(?2))=?2 ORDER BY length(relname)", (schema, t + "_")).fetchall()
            for (x,) in sn:
                out = c.execute(f"SELECT last_value, is_called FROM {qi(mangle(schema) + SEP + mangle(x))}").fetchone()
                break
        c.close()
        return out

    def dump(self, schema):
        """in the form of dbgen.dump, values as geodiff has to represent them"""
        c = self.conn()
        out = {}
        for (oid, t) in c.execute("SELECT c.oid, relname FROM pg_class c JOIN pg_namespace n ON n.oid=c.relnamespace WHERE relkind='r' AND nspname=? ORDER BY 2", (schema,)).fetchall():
            at = c.execute("SELECT attname, base, attnum FROM pg_attribute WHERE attrelid=? AND attisdropped='f' ORDER BY attnum", (oid,)).fetchall()
            pk = [False] * len(at)
            for (ik,) in c.execute("SELECT indkey FROM pg_index WHERE indrelid=? AND indisprimary='t'", (oid,)):
                for n in eval(ik):
                    pk[[a[2] for a in at].index(n)] = True
            rows = []
            for r in c.execute(f"SELECT {','.join(qi(mangle(a[0])) for a in at)} FROM {qi(mangle(schema) + SEP + mangle(t))}"):
                rows.append(tuple(self.conv(v, a[1]) for v, a in zip(r, at)))
            d = {"cols": [a[0] for a in at], "pk": pk, "types": [a[1] for a in at]}
            if any(pk):
                d["rows"] = {tuple(canon(v) for v, p in zip(r, pk) if p): r for r in rows}
                d["nullkeys"] = []
            else:
                d["list"] = sorted((crow(r) for r in rows), key=repr)
            out[t] = d
        c.close()
        return out

    @staticmethod
    def conv(v, base):
        if v is None:
            return None
        if base == "boolean":
            return 1 if v == "t" else 0
        if base == "timestamp without time zone":
            return v[:10] + "T" + v[11:19] + "Z"
        if base == "real" and math.isfinite(v):
            return next(float(x) for x in ("%.*g" % (p, v) for p in range(6, 10)) if f32(float(x)) == v)
        if base == "geometry":
            return b"GP\0\x01" + v
        return v


def gen_pair(rng, ctx, opts=None):
    """an emulated server with two schemas of the same tables -> db, base schema, modified schema, tables, rows of both"""
    opts = opts or {}
    db = Db(ctx)
    s1, s2 = names(rng, SCHEMAS, 2)
    tables = [gen_table(rng, n, opts) for n in names(rng, NAMES, opts.get("tables") or rng.choice([1, 1, 2, 3]))]
    r1 = {t.name: gen_rows(rng, t, rng.choice([0, 3, 8, 20])) for t in tables}
    r2 = {t.name: edit(rng, t, r1[t.name], rng.choice([0, 2, 6, 15])) for t in tables}
    db.create(s1, tables, r1)
    db.create(s2, tables, r2)
    return db, s1, s2, tables, r1, r2


def sqlite_db(path, tables, rows):
    c = dbgen.connect(path)
    c.execute("BEGIN")
    for t in tables:
        c.execute(t.sqlite_ddl())
        for r in (rows[t.name].values() if isinstance(rows[t.name], dict) else rows[t.name]):
            c.execute(f"INSERT INTO {dbgen.q(t.name)} VALUES ({','.join('?' * len(r))})", r)
    c.execute("COMMIT")
    c.close()
