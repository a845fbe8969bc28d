import os, random, shutil, sqlite3, json
import vf, build, dbgen, merge, jsonval
import collections
from changeset import decode
from c02 import read

BIG = vf.TIER != "quick"


class T:
    """a table whose rows are made by number"""
    def __init__(self, name, kind, ncols, rng, vals=None):
        self.name, self.kind, self.n = name, kind, ncols
        self.vals = vals
        k = {"int": "k INTEGER PRIMARY KEY", "text": "k TEXT PRIMARY KEY", "norowid": "k INTEGER NOT NULL PRIMARY KEY", "two": "k INTEGER, k2 TEXT", "late": ""}[kind]
        cols = [f"c{i} {['TEXT', 'INTEGER', 'REAL', 'BLOB'][i % 4]}" for i in range(ncols)]
        if kind == "late":
            cols.append("k INTEGER PRIMARY KEY")
        self.ddl = f"CREATE TABLE {dbgen.q(name)} (" + ", ".join(([k] if k else []) + cols + (["PRIMARY KEY (k, k2)"] if kind == "two" else [])) + ")" + (" WITHOUT ROWID" if kind == "norowid" else "")
        self.names = (["k"] if k else []) + (["k2"] if kind == "two" else []) + [f"c{i}" for i in range(ncols)] + (["k"] if kind == "late" else [])

    def key(self, i):
        return {"int": (i,), "text": ("key %d" % i,), "norowid": (i,), "two": (i % 97, "x%d" % i), "late": (i,)}[self.kind]

    def row(self, rng, i):
        v = []
        for c in range(self.n):
            if self.vals:
                v.append(self.vals(rng, c))
            else:
                x = rng.randrange(1 << 20)
                v.append([f"value {x}", x, x / 8.0, b"b%d" % x][c % 4] if rng.random() < 0.93 else None)
        return tuple(v) + self.key(i) if self.kind == "late" else self.key(i) + tuple(v)

    def where(self):
        return "k = ? AND k2 = ?" if self.kind == "two" else "k = ?"


def connect(p):
    c = sqlite3.connect(p, isolation_level=None)
    c.execute("PRAGMA synchronous=OFF")
    c.execute("PRAGMA journal_mode=MEMORY")
    return c


def fill(p, tables, rng, counts):
    c = connect(p)
    c.execute("BEGIN")
    for t, n in zip(tables, counts):
        c.execute(t.ddl)
        c.executemany(f"INSERT INTO {dbgen.q(t.name)} VALUES ({','.join('?' * len(t.names))})", (t.row(rng, i) for i in range(n)))
    c.execute("COMMIT")
    c.close()


def edit(p, tables, rng, counts, part, add, first):
    """about `part` of the rows updated or deleted, `add` new rows from key `first` on"""
    c = connect(p)
    c.execute("BEGIN")
    for t, n, k in zip(tables, counts, add):
        for i in (rng.sample(range(n), max(1, int(n * part))) if n else []):
            if rng.random() < 0.4:
                c.execute(f"DELETE FROM {dbgen.q(t.name)} WHERE {t.where()}", t.key(i))
            elif t.n:
                col = rng.randrange(t.n)
                new = t.row(rng, i)[t.names.index(f"c{col}")]
                c.execute(f"UPDATE {dbgen.q(t.name)} SET c{col} = ? WHERE {t.where()}", (new,) + t.key(i))
        c.executemany(f"INSERT INTO {dbgen.q(t.name)} VALUES ({','.join('?' * len(t.names))})", (t.row(rng, i) for i in range(first, first + k)))
    c.execute("COMMIT")
    c.close()


def cpu(gd):
    f = open(f"/proc/{gd.p.pid}/stat").read().rsplit(") ", 1)[1].split()
    return (int(f[11]) + int(f[12])) / 100.0


def timed(ctx, tm, fn, *args):
    ctx.gd.cmd("ping")
    t = cpu(ctx.gd)
    r = ctx.call(fn, *args, timeout=300)
    d = cpu(ctx.gd) - t
    tm[fn] = tm.get(fn, 0) + d
    if r.rc != 0 and fn not in ("changesCount", "hasChanges"):
        ctx.fail(f"{fn}-failed", f"{fn} returned {r.rc}: {str(r.errors()[-2:])[:600]}")
    return r


def same(ctx, p, want, what):
    got = dbgen.dump(p)
    if dbgen.norm(got) != dbgen.norm(want):
        ctx.fail("rows-differ:" + what.split(" ")[0], f"{what}: {str(dbgen.diffdesc(got, want))[:800]}")


def everything(ctx, base, mine, theirs, tm, rebase=True, lst=True):
    """every operation on three databases; returns the number of changes"""
    P = ctx.path
    B, M = dbgen.dump(base), dbgen.dump(mine)
    cs, inv = P("m.diff"), P("inv.diff")
    timed(ctx, tm, "createChangeset", base, mine, cs)
    es = decode(read(cs))
    got, want = collections.Counter(dbgen.entries_set(es)), collections.Counter(dbgen.ref_diff(B, M))
    if got != want:
        ctx.fail("entries-differ", f"{sum((want - got).values())} of {sum(want.values())} entries missing, {sum((got - want).values())} unexpected")
    n = timed(ctx, tm, "changesCount", cs).rc
    if n != len(es):
        ctx.fail("count", f"changesCount gives {n} for {len(es)} entries")
    if timed(ctx, tm, "hasChanges", cs).rc != (1 if es else 0):
        ctx.fail("haschanges", f"hasChanges is wrong for {len(es)} entries")
    shutil.copyfile(base, P("a.db"))
    timed(ctx, tm, "applyChangeset", P("a.db"), cs)
    same(ctx, P("a.db"), M, "apply of the changeset")
    timed(ctx, tm, "invertChangeset", cs, inv)
    timed(ctx, tm, "applyChangeset", P("a.db"), inv)
    same(ctx, P("a.db"), B, "invert applied")
    os.unlink(P("a.db"))
    if lst:
        timed(ctx, tm, "listChanges", cs, P("l.json"))
        timed(ctx, tm, "listChangesSummary", cs, P("s.json"))
        l, s = json.loads(read(P("l.json"))), json.loads(read(P("s.json")))
        if len(l["geodiff"]) != len(es):
            ctx.fail("list", f"{len(l['geodiff'])} of {len(es)} changes listed")
        exp = collections.Counter((e.table, e.op) for e in es)
        sm = {(x["table"], o): x[k] for x in s["geodiff_summary"] for o, k in ((18, "insert"), (23, "update"), (9, "delete")) if x[k]}
        if sm != dict(exp):
            ctx.fail("summary", f"the summary gives {str(sm)[:300]}, the changeset {str(dict(exp))[:300]}")
    timed(ctx, tm, "dumpData", "sqlite", "", mine, P("dump.diff"))
    d, want = len(decode(read(P("dump.diff")))), sum(len(r["rows"]) for r in M.values())
    if d != want:
        ctx.fail("dump", f"{d} entries for {want} rows")
    if rebase:
        Tt = dbgen.dump(theirs)
        timed(ctx, tm, "createChangeset", base, theirs, P("t.diff"))
        timed(ctx, tm, "createRebasedChangeset", base, mine, P("t.diff"), P("r.diff"), P("conf.json"))
        shutil.copyfile(theirs, P("a.db"))
        timed(ctx, tm, "applyChangeset", P("a.db"), P("r.diff"))
        plans, _ = merge.plan(B, Tt, M)
        merge.check_merged(ctx, dbgen.dump(P("a.db")), plans, "merge of large changesets")
        os.unlink(P("a.db"))
        shutil.copyfile(mine, P("w.db"))
        timed(ctx, tm, "rebase", base, theirs, P("w.db"), P("conf2.json"))
        merge.check_merged(ctx, dbgen.dump(P("w.db")), plans, "rebase of large databases")
        os.unlink(P("w.db"))
    ctx.count("changes", len(es))
    ctx.count("bytes", os.path.getsize(cs))
    return len(es)


def make(ctx, tables, counts, part=0.1, add=None, rebase=True, lst=True, sub=""):
    rng, P = ctx.rng, ctx.path
    add = add if add is not None else [max(1, n // 20) for n in counts]
    base, mine, theirs = P(sub + "base.db"), P(sub + "mine.db"), P(sub + "theirs.db")
    fill(base, tables, rng, counts)
    shutil.copyfile(base, mine)
    edit(mine, tables, rng, counts, part, add, max(counts) + 10)
    if rebase:
        shutil.copyfile(base, theirs)
        edit(theirs, tables, rng, counts, part, add, max(counts) + 10)
    tm = {}
    n = everything(ctx, base, mine, theirs, tm, rebase, lst)
    return n, tm


# lengths around the sizes at which encodings and buffers change
LENGTHS = sorted({x + d for x in (0, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 8192, 16383, 16384, 32767, 32768, 65535, 65536, 100000, 262144, 524288, 1048576, 2097151, 2097152) for d in (-1, 0, 1) if x + d >= 0})


def lengths_case(ctx):
    """values of every length at which something may change"""
    rng = ctx.rng
    kind = rng.choice(["int", "late", "norowid"])
    pick = rng.sample(LENGTHS, 40) + [rng.randrange(3000) for _ in range(40)]
    if rng.random() < 0.3:
        pick += [rng.choice([3 << 20, 5000000, 8 << 20, 16 << 20])]
    it = iter(pick * 4)

    def vals(rng, c):
        n = next(it, 7) if rng.random() < 0.6 else rng.randrange(20)
        if c % 4 == 1:
            return rng.randrange(1 << 62)
        if c % 4 == 2:
            return rng.random()
        body = os.urandom(0) + (b"%d," % rng.randrange(10 ** 6)) * (n // 5 + 2)
        body = body[:n]
        return body.decode() if c % 4 == 0 else body
    k = rng.choice([1, 1, 126, 127, 128, 254, 255, 256, 257, 500, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 20000])
    t = T("t" + "abc e" * (k // 5) + "x" * (k % 5), kind, rng.choice([4, 8]), rng, vals)
    ctx.count("table names longer than 255 bytes", int(k > 255))
    n, tm = make(ctx, [t], [60], 0.6, [25])
    ctx.count("long_value_cases")
    ctx.sig("lengths", kind, n)


def rows_case(ctx, kind):
    rng = ctx.rng
    n = rng.choice([6000, 12000]) if not BIG else rng.choice([20000, 60000])
    t = T("t", kind, 4, rng)
    k, tm = make(ctx, [t], [n], 0.12)
    ctx.sig("rows", kind, n)
    ctx.count("row_cases")
    ctx.sample({"rows": n, "key": kind, "changes": k, "cpu": {f: round(x, 2) for f, x in tm.items()}})


def bulk_case(ctx):
    """everything inserted, everything deleted"""
    rng, P = ctx.rng, ctx.path
    n = 15000 if not BIG else 80000
    t = T("bulk", rng.choice(["int", "text", "late"]), 3, rng)
    fill(P("empty.db"), [t], rng, [0])
    fill(P("full.db"), [t], rng, [n])
    fill(P("full2.db"), [t], rng, [n // 2])
    tm = {}
    everything(ctx, P("empty.db"), P("full.db"), P("full2.db") if t.kind != "text" else None, tm, rebase=t.kind != "text")
    everything(ctx, P("full.db"), P("empty.db"), None, tm, rebase=False, lst=False)
    ctx.sig("bulk", t.kind)
    ctx.count("bulk_cases")


def tables_case(ctx):
    rng = ctx.rng
    n = rng.choice([150, 400]) if not BIG else rng.choice([500, 1500])
    ts = [T(f"table {i}" if i % 3 else f"T{i}" + "n" * (i % 200), rng.choice(["int", "late", "norowid"]), rng.randrange(1, 5), rng) for i in range(n)]
    k, tm = make(ctx, ts, [rng.randrange(0, 6) for _ in ts], 0.4, [rng.randrange(0, 3) for _ in ts])
    ctx.sig("tables", n)
    ctx.count("table_cases")


def cols_case(ctx):
    rng = ctx.rng
    n = rng.choice([126, 127, 128, 129, 254, 255, 256, 257, 300, 500, 700, 899])
    t = T("wide", rng.choice(["int", "late", "norowid"]), n - 1, rng)
    k, tm = make(ctx, [t], [30], 0.5, [6])
    ctx.sig("cols", n)
    ctx.count("column_cases")


def growth_case(ctx):
    """processor time for eight times as much data"""
    rng = ctx.rng
    res = []
    for n in (4000, 32000):
        for f in os.listdir(ctx.dir):
            os.unlink(ctx.path(f))
        # few changes in many rows and many changes: both have to stay cheap
        t = T("t", "int", 3, rng)
        tm = make(ctx, [t], [n], 0.3)[1]
        res.append(tm)
    for f in res[0]:
        a, b = max(res[0][f], 0.06), res[1][f]
        if b > 35 * a:
            ctx.fail("time", f"{f}: {res[0][f]:.2f} s of processor time, {b:.2f} s for eight times as many rows")
        ctx.count("growth_measured")
        ctx.sig("growth", f)
    ctx.sample({f: [round(res[0][f], 2), round(res[1][f], 2)] for f in res[0]})


def value_growth_case(ctx):
    """processor time for long values"""
    rng, res = ctx.rng, []
    for size in (1 << 18, 1 << 21):
        for f in os.listdir(ctx.dir):
            os.unlink(ctx.path(f))
        t = T("t", "int", 2, rng, lambda rng, c: (("%d \"q\" \\ \u00fc " % rng.randrange(10 ** 6)) * (size // 20)) if c % 4 == 0 else rng.randrange(9))
        res.append(make(ctx, [t], [6], 0.7, [2])[1])
    for f in res[0]:
        a, b = max(res[0][f], 0.1), res[1][f]
        if b > 40 * a:
            ctx.fail("time", f"{f}: {res[0][f]:.2f} s of processor time, {b:.2f} s for values eight times as long")
        ctx.count("growth_measured")
        ctx.sig("value growth", f)
    ctx.sample({f: [round(res[0][f], 2), round(res[1][f], 2)] for f in res[0]})


def case(ctx, i):
    k = i % 16
    if k in (0, 1, 2, 3, 4, 5):
        lengths_case(ctx)
    elif k == 6:
        growth_case(ctx)
    elif k == 7:
        value_growth_case(ctx)
    elif k in (8, 9):
        rows_case(ctx, ["int", "late", "norowid"][ctx.rng.randrange(3)])
    elif k == 10:
        bulk_case(ctx)
    elif k == 11:
        tables_case(ctx)
    else:
        cols_case(ctx)


def main(only=None):
    c = vf.Check("C29", rule="all operations on databases with many rows, tables or columns and with long values, judged like small ones (independent difference, rows after apply, invert and rebase, listings), and processor time for eight times the data. Non-trivial: shape x size observed",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "up to 900 columns (SQLite's limit on the depth of expressions stops wider tables)"])
    n = 48 if vf.TIER == "quick" else 480
    c.run_cases(case, only or range(n))
    return c.finish()
