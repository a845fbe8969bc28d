"""Triples base / theirs / mine, and what a merge of them has to give."""
import shutil, sqlite3
import dbgen
from dbgen import q
from changeset import canon, crow, UNDEF

MERGE_PKS = ["int", "int", "int", "autoinc", "text", "intnorowid", "worowid", "pklast", "bigint"]


def gen_triple(rng, ctx, opts=None):
    """three database files; edits of both sides meet on the same keys"""
    opts = opts or {}
    base, theirs, mine = ctx.path("base.db"), ctx.path("theirs.db"), ctx.path("mine.db")
    gpkg = opts.get("gpkg", rng.random() < 0.35)
    if gpkg:
        tables = dbgen.gen_gpkg_schema(rng, opts)
    else:
        tables = []
        for nm in dbgen.gen_names(rng, rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.1 and not any(t.name.startswith("gpkg_") for t in tables):
                nm = rng.choice(["gpkg_data_columns", "gpkg_contents_x", "gpkg_", "gpkg_metadata"])
            o = dict(opts)
            o["pk"] = opts.get("pk") or rng.choice(MERGE_PKS)
            tables.append(dbgen.gen_table(rng, nm, o))
    c = dbgen.create_db(base, tables, gpkg, rng.choice([None, 512, 1024]))
    c.execute("BEGIN")
    for t in tables:
        if t.pkstyle == "bigint":
            for _ in range(12):
                r = dbgen.new_row(rng, t)
                r[t.pk[0]] = rng.choice([rng.randint(1, 20), 2**31 + rng.randint(-2, 2), 2**32 + rng.randint(1, 20), -rng.randint(1, 9), -2**63, 2**40])
                try:
                    dbgen.insert(c, t, r)
                except sqlite3.IntegrityError:
                    pass
        else:
            dbgen.populate(rng, c, t, rng.choice([0, 3, 6, 12, 20]), (1, 15))
    c.execute("COMMIT")
    c.close()
    shutil.copyfile(base, theirs)
    shutil.copyfile(base, mine)
    ct, cm = dbgen.connect(theirs), dbgen.connect(mine)
    for x in (ct, cm):
        x.execute("PRAGMA synchronous=OFF")
        x.execute("BEGIN")
    quiet = rng.choice([None] * 8 + ["theirs", "mine"])
    for t in tables:
        k = rng.choice([0, 2, 5, 10, 25])
        if quiet != "theirs" and rng.random() < 0.9:
            edit_side(rng, ct, t, k, None)
        if quiet != "mine" and rng.random() < 0.9:
            edit_side(rng, cm, t, rng.choice([1, 3, 6, 15]), None if quiet == "theirs" else ct)
    if gpkg:
        for x in (ct, cm):
            if rng.random() < 0.7:
                n = rng.choice(tables).name
                x.execute("UPDATE gpkg_contents SET last_change=?, min_x=?, description=? WHERE table_name=?",
                          ("2020-01-%02dT00:00:00.000Z" % rng.randint(1, 28), rng.choice([None, rng.randint(1, 99)]), rng.choice(["", "", "descr %d" % rng.randint(0, 9)]), n))
    ct.execute("COMMIT")
    cm.execute("COMMIT")
    ct.close()
    cm.close()
    return base, theirs, mine, tables, gpkg


def newkey(rng, t, c):
    f = t.cols[t.pk[0]][3]
    if f == "text":
        return rng.choice(["new", "new_2", "new_3", "new_2_2", "key'q", "Ünï", "a\0b", "a\0c", "", "x\ny", "12", "%s", "k%d" % rng.randint(0, 30)])
    lo = {"bigint": rng.choice([2**41, 2**53, 2**62])}.get(t.pkstyle, 16)
    if t.pkstyle == "bigint":
        # always above every key of base, so that a fresh key is free
        lo = 2**41
    return lo + rng.randint(0, 12) if rng.random() < 0.9 else lo + rng.randint(100, 10**6)


def edit_side(rng, c, t, n, other):
    """n edits; with other given, often on the rows the other side changed, sometimes to the same value"""
    kc = q(t.cols[t.pk[0]][0])
    vals = [i for i in range(len(t.cols)) if i not in t.pk]
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            row = dbgen.new_row(rng, t)
            row[t.pk[0]] = newkey(rng, t, c)
            if other is not None and rng.random() < 0.15:
                o = other.execute(f"SELECT {','.join(q(x[0]) for x in t.cols)} FROM {q(t.name)}").fetchall()
                uniq = [i for i in vals if t.cols[i][3] == "uniq"]
                if o and not uniq:
                    o = sorted(o, key=repr)
                    row = list(rng.choice(o))
            try:
                dbgen.insert(c, t, row)
            except sqlite3.IntegrityError:
                pass
            continue
        keys = [x[0] for x in c.execute(f"SELECT {kc} FROM {q(t.name)} ORDER BY {kc}")]
        if not keys:
            continue
        k = rng.choice(keys)
        if r < 0.55:
            c.execute(f"DELETE FROM {q(t.name)} WHERE {kc} IS ?", (k,))
            continue
        if not vals:
            continue
        sel = rng.sample(vals, rng.choice([1, 1, min(2, len(vals)), len(vals)]))
        new = []
        for i in sel:
            v = dbgen.value(rng, t.cols[i][3], t.cols[i][2])
            if other is not None and t.cols[i][3] != "uniq" and rng.random() < 0.3:
                o = other.execute(f"SELECT {q(t.cols[i][0])} FROM {q(t.name)} WHERE {kc} IS ?", (k,)).fetchone()
                if o:
                    v = o[0]
            new.append(v)
        try:
            c.execute(f"UPDATE {q(t.name)} SET " + ",".join(f"{q(t.cols[i][0])}=?" for i in sel) + f" WHERE {kc} IS ?", (*new, k))
        except sqlite3.IntegrityError:
            pass


class Diff:
    """per table: inserted / deleted {key: row}, updated {key: {column: new value}}"""
    def __init__(self, a, b):
        self.ins, self.dele, self.upd = {}, {}, {}
        for k in b.keys() - a.keys():
            self.ins[k] = b[k]
        for k in a.keys() - b.keys():
            self.dele[k] = a[k]
        for k in a.keys() & b.keys():
            ch = {i: w for i, (v, w) in enumerate(zip(a[k], b[k])) if canon(v) != canon(w)}
            if ch:
                self.upd[k] = ch

    def any(self):
        return bool(self.ins or self.dele or self.upd)


def plan(B, T, M):
    """-> per table: the rows that must be there under their key, and the inserted rows that may be renumbered;
    and the expected conflict records"""
    out, conflicts = {}, {}
    for t in B:
        if "rows" not in B[t]:
            continue
        b, th, mi = B[t]["rows"], T[t]["rows"], M[t]["rows"]
        dT, dM = Diff(b, th), Diff(b, mi)
        fixed = {k: tuple(r) for k, r in th.items()}
        for k in dM.dele:
            fixed.pop(k, None)
        for k, ch in dM.upd.items():
            if k in dT.dele:
                continue
            r = list(fixed[k])
            for i, v in ch.items():
                r[i] = v
                if i in dT.upd.get(k, {}) and canon(dT.upd[k][i]) != canon(v) and not (t == "gpkg_contents" and i == 4):
                    conflicts[(t, k, i)] = (b[k][i], dT.upd[k][i], v)
            fixed[k] = tuple(r)
        clash = {k: r for k, r in dM.ins.items() if k in dT.ins}
        free = {k: r for k, r in dM.ins.items() if k not in dT.ins}
        out[t] = (fixed, clash, free, dT, dM, B[t]["pk"])
    return out, conflicts


def check_merged(ctx, R, plans, what):
    """R: dump of the database after the merge"""
    for t, (fixed, clash, free, dT, dM, pk) in plans.items():
        rows = R[t]["rows"]
        for k, r in fixed.items():
            if k not in rows:
                ctx.fail("row-lost", f"{what}: {t}{k} is missing: {str(r)[:200]}")
            if crow(rows[k]) != crow(r):
                ctx.fail("row-wrong", f"{what}: {t}{k} is {str(rows[k])[:200]}, expected {str(r)[:200]}")
        extra = {k: r for k, r in rows.items() if k not in fixed}
        body = lambda r: tuple(canon(v) for v, p in zip(r, pk) if not p)
        for k in [k for k in extra if k not in dM.ins and (k in dT.dele or k in dM.dele)]:
            ctx.fail("row-undeleted", f"{what}: deleted row {t}{k} is there: {str(extra[k])[:200]}")
        left = dict(extra)
        moved = {}
        for k, r in free.items():
            if k in left and body(left[k]) == body(r):
                del left[k]
            else:
                moved[k] = r
        for k, r in moved.items():
            # may only give way to another of my rows, one that had to move
            if k not in extra:
                ctx.fail("insert-moved", f"{what}: my inserted row {t}{k} lost its key without need")
        want = sorted([body(r) for r in clash.values()] + [body(r) for r in moved.values()], key=repr)
        have = sorted([body(r) for r in left.values()], key=repr)
        if want != have:
            miss = [w for w in want if w not in have]
            ctx.fail("inserts-wrong", f"{what}: table {t}: {len(want)} rows of mine to be renumbered, {len(have)} new rows found; missing {str(miss[:2])[:300]}, clash {list(clash)[:5]} moved {list(moved)[:5]} found {list(left)[:5]}")


def strata(plans, conflicts):
    """which combinations of edits met"""
    s = set()
    for t, (fixed, clash, free, dT, dM, pk) in plans.items():
        for a, da in (("i", dT.ins), ("d", dT.dele), ("u", dT.upd)):
            for b, db in (("i", dM.ins), ("d", dM.dele), ("u", dM.upd)):
                if set(da) & set(db):
                    s.add(f"theirs_{a}/mine_{b}")
        for k in set(dT.upd) & set(dM.upd):
            if set(dT.upd[k]) & set(dM.upd[k]):
                same = [canon(dT.upd[k][i]) == canon(dM.upd[k][i]) for i in set(dT.upd[k]) & set(dM.upd[k])]
                s.add("same_column_same_value" if all(same) else "same_column")
            else:
                s.add("different_columns")
        if clash:
            s.add("clash")
    return s



def odd_keys(plans):
    """changed keys that are neither one integer nor one text: rebase may refuse these"""
    for t, (fixed, clash, free, dT, dM, pk) in plans.items():
        if dT.any():
            for d in (dT, dM):
                for x in (d.ins, d.dele, d.upd):
                    if any(len(k) != 1 or k[0][0] not in "it" for k in x):
                        return True
    return False
