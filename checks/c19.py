import os, shutil, sqlite3
import vf, dbgen
from dbgen import q
from changeset import decode
from c02 import read
import c17

KEEP = ["roads", "my table", "it's", 'quo"te', "select", "Ünï çødé 表", "semi;colon", "per%cent%s%n", "[brack]", "x'--", "xgpkg_a", "Gpkg_b", "my_rtree_", "1st", "a.b", "references", "new\nline"]
COLN = ["name", "a b", "it's", 'q"q', "references", "Ünï", "%s", "x'--", "rowid", "order"]


def aup(s):
    return "".join(c.upper() if c.isascii() else c for c in s)


def lit(s):
    return "'" + s.replace("'", "''") + "'"


def user_table(rng, name, cols, fks, tail="", key="fid"):
    """table with an integer key; fks: list of SQL constraint texts"""
    parts = [f"{q(key)} INTEGER PRIMARY KEY"] + [f"{q(n)} {d}" for n, d in cols] + fks
    return f"CREATE TABLE {q(name)} ({', '.join(parts)}){tail}"


def fk_clause(rng, froms, parent, to):
    t = "" if to is None else " (" + ", ".join(map(q, to)) + ")"
    act = rng.choice(["", "", " ON DELETE CASCADE", " ON UPDATE SET NULL", " DEFERRABLE INITIALLY DEFERRED", " MATCH FULL", " ON DELETE RESTRICT ON UPDATE NO ACTION"])
    return f"{rng.choice(['', 'CONSTRAINT ' + q('fk name') + ' '])}FOREIGN KEY ({', '.join(map(q, froms))}) REFERENCES {q(parent)}{t}{act}"


def make_base(ctx, kind):
    """a database of a few tables; kind says where a foreign key is. Returns (path, names of tables with content)"""
    rng = ctx.rng
    names = rng.sample(KEEP, rng.choice([2, 3, 5]))
    cn = rng.sample(COLN, 3)
    p = ctx.path("base.db")
    gpkg = rng.random() < 0.4
    c = dbgen.connect(p)
    c.execute("PRAGMA synchronous=OFF")
    if gpkg:
        for s in dbgen.GPKG_META:
            c.execute(s)
    child = rng.choice(names)
    parent = rng.choice([n for n in names if n != child])
    order = list(names)
    rng.shuffle(order)
    sql = []
    for n in order:
        cols = [(cn[0], "TEXT"), (cn[1], "INTEGER"), (cn[2], rng.choice(["", "REAL", "BLOB"]))]
        fks, tail = [], ""
        if rng.random() < 0.2:
            cols.append(("note", "TEXT DEFAULT 'x REFERENCES y(z)' CHECK (note <> 'FOREIGN KEY')"))
        if rng.random() < 0.2:
            fks.append(f"UNIQUE ({q(cn[0])}, {q(cn[1])})")
        if n == child:
            if kind == "column":
                i = rng.randrange(3)
                cols[i] = (cols[i][0], cols[i][1] + f" REFERENCES {q(parent)}" + rng.choice(["", " (fid)", f" ({q(cn[1])})"]))
            elif kind == "table":
                fks.append(fk_clause(rng, [cn[1]], parent, rng.choice([None, ["fid"]])))
            elif kind == "composite":
                fks.append(fk_clause(rng, cn[:2], parent, rng.choice([None, [cn[0], cn[1]], [cn[1], "fid"]])) if rng.random() < 0.7 else fk_clause(rng, [cn[1], "fid"], parent, None))
            elif kind == "self":
                fks.append(fk_clause(rng, [cn[1]], n, rng.choice([None, ["fid"]])))
            elif kind == "missing table":
                fks.append(fk_clause(rng, [cn[1]], rng.choice(["nowhere", "no'where", "gpkg_nothing"]), rng.choice([None, ["fid"]])))
            elif kind == "missing column":
                fks.append(fk_clause(rng, [cn[1]], parent, ["nope"]))
            elif kind == "to gpkg" and gpkg:
                fks.append(fk_clause(rng, [cn[1]], "gpkg_spatial_ref_sys", rng.choice([None, ["srs_id"]])))
            elif kind == "from key":
                fks.append(fk_clause(rng, ["fid"], parent, rng.choice([None, ["fid"]])))
            elif kind == "without rowid":
                fks.append(fk_clause(rng, [rng.choice([cn[1], "fid"])], parent, rng.choice([None, ["fid"]])))
                tail = " WITHOUT ROWID"
            elif kind == "case":
                fks.append(fk_clause(rng, [aup(cn[1])], aup(parent), ["FID"]))
            elif kind == "generated":
                cols.append(("gc", f"INTEGER AS (fid + 1) STORED REFERENCES {q(parent)} (fid)"))
            elif kind == "several":
                for x in rng.sample(cn, 2):
                    fks.append(fk_clause(rng, [x], rng.choice(names), rng.choice([None, ["fid"]])))
        key = "fid"
        sql.append(user_table(rng, n, cols, fks, tail))
    for s in sql:
        c.execute(s)
    for n in names:
        for k in range(rng.choice([0, 3, 8])):
            c.execute(f"INSERT INTO {q(n)} ({q(cn[0])}, {q(cn[1])}) VALUES (?, ?)", (rng.choice(["a", "b", None]) if False else "v%d" % rng.randint(0, 10**6), rng.randint(1, 10**6)))if not any("WITHOUT" in s and q(n) in s[:60] for s in sql) else c.execute(f"INSERT INTO {q(n)} (fid, {q(cn[0])}, {q(cn[1])}) VALUES (?, ?, ?)", (k + 1, "v%d" % rng.randint(0, 10**6), rng.randint(1, 10**6)))
    c.close()
    return p, names, cn, gpkg


FK = ["column", "table", "composite", "self", "missing table", "missing column", "to gpkg", "from key", "without rowid", "case", "generated", "several"]


def edit(rng, p, names, cn, lo):
    c = dbgen.connect(p)
    c.execute("PRAGMA synchronous=OFF")
    for n in names:
        if rng.random() < 0.8:
            c.execute(f"UPDATE {q(n)} SET {q(cn[2])} = ? WHERE fid <= ?", (rng.randint(1, 10**6), rng.randint(0, 4)))
            c.execute(f"DELETE FROM {q(n)} WHERE fid = ?", (rng.randint(3, 8),))
            for k in range(rng.choice([0, 1, 3])):
                c.execute(f"INSERT INTO {q(n)} (fid, {q(cn[0])}, {q(cn[1])}) VALUES (?, ?, ?)", (lo + k, "n%d" % rng.randint(0, 10**6), rng.randint(1, 10**6)))
    c.close()


def has_fk(path):
    """a foreign key of a user table, as SQLite sees it"""
    c = dbgen.connect(path)
    try:
        return any(c.execute("SELECT count(*) FROM pragma_foreign_key_list(?)", (n,)).fetchone()[0] for n in dbgen.tables_of(c) if not n.startswith("gpkg_"))
    finally:
        c.close()


def foreign_triggers(path):
    c = dbgen.connect(path)
    try:
        return [n for (n,) in c.execute("SELECT name FROM sqlite_master WHERE type='trigger'") if not n.startswith(("gpkg_", "rtree_", "trigger_insert_feature_count_", "trigger_delete_feature_count_"))]
    finally:
        c.close()


def case(ctx, i):
    rng = ctx.rng
    P = ctx.path
    r = rng.random()
    kind = rng.choice(FK) if r < 0.45 else "none"
    base, names, cn, gpkg = make_base(ctx, kind)
    theirs, mine = P("theirs.db"), P("mine.db")
    shutil.copyfile(base, theirs)
    shutil.copyfile(base, mine)
    trig = 0
    where = "none"
    if 0.45 <= r < 0.85:
        where = rng.choice(["mine", "mine", "all", "base", "theirs"])
        c = dbgen.connect(mine)
        tabs = []
        for n in names:
            tabs.append(dbgen.Table(n, [["fid", "INTEGER", False, "int", ""], [cn[0], "", False, "", ""]], [0]))
        c.close()
        sql = [s for s in c17.triggers(rng, tabs, rng.choice([1, 1, 2])) if s.startswith("CREATE TRIGGER") and "INSTEAD" not in s]
        for p in {"mine": [mine], "all": [base, theirs, mine], "base": [base], "theirs": [theirs]}[where]:
            c = dbgen.connect(p)
            for s in sql:
                try:
                    c.execute(s)
                except sqlite3.DatabaseError:
                    pass
            c.close()
    if rng.random() < 0.4:
        # objects of GeoPackage, or with its names, that are nothing to refuse for
        for p in (base, theirs, mine):
            c = dbgen.connect(p)
            n = q(names[0])
            for s in (f"CREATE TRIGGER rtree_a_geom_insert AFTER INSERT ON {n} BEGIN SELECT 1; END", f"CREATE TRIGGER {q('trigger_insert_feature_count_' + names[0])} AFTER INSERT ON {n} BEGIN SELECT 1; END",
                      f"CREATE TRIGGER {q('trigger_delete_feature_count_' + names[0])} AFTER DELETE ON {n} BEGIN SELECT 1; END", f"CREATE TRIGGER gpkg_x AFTER DELETE ON {n} BEGIN SELECT 1; END",
                      f"CREATE VIEW vw AS SELECT * FROM {n}", f"CREATE INDEX ix ON {n} ({q(cn[0])})"):
                c.execute(s)
            c.close()
    # edits with triggers out of the way: the editor's business
    for p, lo in ((theirs, 100), (mine, rng.choice([100, 101, 300]))):
        saved = []
        c = dbgen.connect(p)
        for n, s in c.execute("SELECT name, sql FROM sqlite_master WHERE type='trigger'").fetchall():
            c.execute(f"DROP TRIGGER {q(n)}")
            saved.append(s)
        c.close()
        edit(rng, p, names, cn, lo)
        c = dbgen.connect(p)
        for s in saved:
            c.execute(s)
        c.close()
    fk, tr = has_fk(mine), foreign_triggers(mine)
    if kind not in ("none", "to gpkg") and not fk:
        raise vf.Skip()
    ctx.ok("createChangeset", base, theirs, P("bt.diff"))
    if rng.random() < 0.3:
        with open(P("conf.json"), "w") as f:
            f.write("stale")
    before = {p: read(p) for p in (base, theirs, mine, P("bt.diff"))}
    r = ctx.call("createRebasedChangeset", base, mine, P("bt.diff"), P("out.diff"), P("conf.json"))
    for p, b in before.items():
        if read(p) != b:
            ctx.fail("changed", f"createRebasedChangeset changed {os.path.basename(p)}")
    what = f"foreign key: {kind}, triggers {tr}"
    if fk or tr:
        if r.rc == 0:
            ctx.fail("not-refused:" + ("fk" if fk else "trigger"), f"createRebasedChangeset accepted a database with {what}")
        if not r.errors():
            ctx.fail("silent", f"refusal without an error message ({what})")
        for o in ("out.diff", "conf.json"):
            if os.path.exists(P(o)):
                ctx.fail("left-output", f"refusal left {o} ({what})")
        ctx.count("refused:" + (kind if fk else "trigger"))
    else:
        if r.rc != 0:
            ctx.fail("refused", f"createRebasedChangeset refused a database without foreign keys and triggers of its own (triggers in {where}): {r.errors()[-2:]}")
        decode(read(P("out.diff")))
        ctx.count("accepted, triggers in " + where if where != "none" else "accepted")
    ctx.sig(kind, where, bool(fk), tuple(tr), gpkg, len(names))
    ctx.sample({"foreign_key": kind, "triggers": tr, "rc": r.rc})


def main(only=None):
    c = vf.Check("C19", rule="databases with foreign keys of 12 forms, with triggers of hostile names in one or all databases, and with neither; whether a refusal is due is read from SQLite's own pragmas. Non-trivial: distinct (form, trigger names, where)",
                 assumptions=["tables and triggers named like GeoPackage's own (prefixes gpkg_, rtree_, trigger_insert_feature_count_, trigger_delete_feature_count_) count as such", "rebase() and rebaseEx() do not promise the refusal"])
    c.run_cases(case, only or range(2500 if vf.TIER == "quick" else 25000))
    return c.finish()
