import os, shutil
import vf, build, dbgen, pg, merge
from changeset import decode, encode, Entry, canon, crow, INSERT, UPDATE, DELETE, UNDEF
from c02 import read
from c10 import mutate
from c25 import rows_of, same, clean, sequence_free


def reference(dump, es):
    """what applying the entries one after the other gives: rows by table, or None when one does not match"""
    rows = {t: dict(rows_of({t: x})[t]) for t, x in dump.items() if "rows" in x}
    for e in es:
        if e.table.startswith("gpkg_"):
            continue
        if e.table not in rows or list(e.pk) != [bool(p) for p in dump[e.table]["pk"]]:
            return None
        r = rows[e.table]
        if e.op == INSERT:
            if e.key() in r:
                return None
            r[e.key()] = crow(e.new)
        else:
            k = e.key()
            if k not in r or any(o != ("u",) and o != v for o, v in zip(crow(e.old), r[k])):
                return None
            if e.op == DELETE:
                del r[k]
            else:
                n = tuple(v if w == ("u",) else w for v, w in zip(r[k], crow(e.new)))
                nk = tuple(v for v, p in zip(n, e.pk) if p)
                if nk != k and nk in r:
                    return None
                del r[k]
                r[nk] = n
    return rows


def judge(ctx, db, schema, target, cs, want, what):
    before, others = db.raw(), {s: db.dump(s) for s in db.schemas() if s != schema}
    r = ctx.call("applyChangesetEx", "postgres", db.info, schema, cs)
    clean(ctx, what)
    if r.rc not in (0, 1):
        ctx.fail("return-value", f"{what}: return value {r.rc}")
    if r.rc:
        if db.raw() != before:
            ctx.fail("not-rolled-back", f"{what}: refused, but the database changed")
        if not r.errors():
            ctx.fail("no-message", f"{what}: refused without an error message")
        if want is not None:
            ctx.fail("refused", f"{what}: changes that match were refused: {r.errors()[-2:]}")
        ctx.count("refused")
        return r
    if want is None:
        ctx.fail("mismatch-accepted", f"{what}: changes that do not match were accepted")
    got = {t: x for t, x in rows_of(db.dump(schema)).items() if t in want}
    if got != want:
        bad = [t for t in want if got[t] != want[t]][0]
        ctx.fail("result", f"{what}: {bad!r}: {[(k, got[bad].get(k), want[bad].get(k)) for k in {*got[bad], *want[bad]} if got[bad].get(k) != want[bad].get(k)][:2]}")
    for s, x in others.items():
        same(ctx, db.dump(s), x, what + ": other schema")
    ctx.count("accepted")
    return r


def conflict_case(ctx, i):
    """the changeset of two schemas applied to a third that may have diverged"""
    rng = ctx.rng
    db, s1, s2, tables, r1, r2 = pg.gen_pair(rng, ctx)
    s3 = pg.names(rng, [s for s in pg.SCHEMAS if s.lower() not in (s1.lower(), s2.lower())], 1)[0]
    A, B = db.dump(s1), db.dump(s2)
    cs = ctx.path("cs")
    ctx.ok("createChangesetEx", "postgres", db.info, s1, s2, cs)
    es = decode(read(cs))
    r3 = {}
    div = rng.choice(["none", "one", "one", "one", "case", "many"])
    for t in tables:
        r3[t.name] = {k: list(v) for k, v in r1[t.name].items()} if t.pk else r1[t.name]
    if es and div != "none":
        for _ in range(1 if div in ("one", "case") else 4):
            e = rng.choice(es)
            t = [x for x in tables if x.name == e.table][0]
            rows, k = r3[t.name], e.key()
            if e.op == INSERT:
                r = list(e.new) if rng.random() < 0.5 else pg.new_row(rng, t)
                for j in t.pk:
                    r[j] = e.new[j]
                rows[k] = r
            elif rng.random() < 0.4:
                rows.pop(k, None)
            elif k in rows:
                cand = [j for j in range(len(t.cols)) if j not in t.pk and (e.op == DELETE or canon(e.old[j]) != ("u",) or rng.random() < 0.3)]
                if cand:
                    j = rng.choice(cand)
                    v = rows[k][j]
                    if div == "case" or (isinstance(v, str) and rng.random() < 0.4):
                        if isinstance(v, str):
                            rows[k][j] = v.swapcase() if t.cols[j][3] != "ts" else v
                    else:
                        rows[k][j] = rng.choice([None if not t.cols[j][2] else pg.value(rng, t, j), pg.value(rng, t, j)])
    db.create(s3, tables, r3)
    C = db.dump(s3)
    want = reference(C, es)
    r = judge(ctx, db, s3, C, cs, want, f"apply to a {div} diverged schema")
    if want is None:
        es2 = sorted({e.op for e in es})
        ctx.sig("conflict", repr(C), repr(es))
    if r.rc == 0:
        for t in tables:
            if t.serial and any(e.table == t.name and e.op == 18 for e in es) and (r1[t.name] or True):
                sequence_free(ctx, db, s3, t, "after apply")
    ctx.count("diverged:" + div)
    ctx.sample({"entries": [repr(e)[:150] for e in es[:3]], "accepted": r.rc == 0})


def crafted_case(ctx, i):
    """sequences of entries on few keys; headers that do not match the table; altered files"""
    rng = ctx.rng
    db, s1, s2, tables, r1, r2 = pg.gen_pair(rng, ctx, {"tables": rng.choice([1, 2])})
    A = db.dump(s1)
    keyed = [t for t in tables if t.pk]
    cs = ctx.path("cs")
    kind = rng.choice(["sequence", "sequence", "header", "mutate", "mutate", "overflow"])
    es = []
    if keyed:
        model = {t.name: {k: list(v) for k, v in r1[t.name].items()} for t in keyed}
        bad = rng.random() < 0.5
        for n in range(rng.randint(1, 12)):
            t = rng.choice(keyed)
            pk = [j in t.pk for j in range(len(t.cols))]
            m = model[t.name]
            x = rng.random()
            wrong = bad and rng.random() < 0.2
            if x < 0.4 or not m:
                r = pg.new_row(rng, t, (1, 60))
                if pg.key(t, r) in m and not wrong:
                    continue
                es.append(Entry(t.name, pk, INSERT, new=r))
                m[pg.key(t, r)] = r
                continue
            k = rng.choice(sorted(m, key=repr))
            r = list(m[k])
            if wrong:
                r = pg.new_row(rng, t, (1, 60)) if rng.random() < 0.5 else [v if p or rng.random() < 0.6 else pg.value(rng, t, j) for j, (v, p) in enumerate(zip(r, pk))]
            if x < 0.6:
                es.append(Entry(t.name, pk, DELETE, old=r))
                m.pop(k)
            else:
                vals = [j for j in range(len(pk)) if not pk[j]]
                sel = set(rng.sample(vals, rng.randint(0, len(vals))))
                new = [pg.value(rng, t, j) if j in sel else UNDEF for j in range(len(pk))]
                if rng.random() < 0.1:
                    nr = pg.new_row(rng, t, (1, 60))
                    for j in t.pk:
                        new[j] = nr[j]
                old = [v if p or j in sel else UNDEF for j, (v, p) in enumerate(zip(r, pk))]
                es.append(Entry(t.name, pk, UPDATE, old=old, new=new))
                n2 = [v if w is UNDEF else w for v, w in zip(m[k], new)]
                m.pop(k)
                m[pg.key(t, n2)] = n2
        if rng.random() < 0.2:
            es.insert(rng.randint(0, len(es)), Entry("gpkg_contents", [True, False], rng.choice([INSERT, DELETE]), old=["a", 1], new=["a", 1]))
            es[-1:] = es[-1:]
    for e in es:
        if e.op == INSERT:
            e.old = None
        elif e.op == DELETE:
            e.new = None
    if kind == "overflow" and es:
        for e in es:
            row = e.new if e.new is not None else e.old
            ints = [j for j, c in enumerate([t for t in tables if t.name == e.table][0].cols) if c[3] == "int" and isinstance(row[j], int)] if not e.table.startswith("gpkg_") else []
            if ints:
                row[rng.choice(ints)] = rng.choice([2**31, -2**31 - 1, 2**62])
    if kind == "header" and es:
        e = rng.choice(es)
        w = rng.choice(["extra", "less", "pk", "table", "nopk"])
        if w == "extra":
            e.pk = e.pk + (False,)
            for r in (e.old, e.new):
                if r is not None:
                    r.append(1)
        elif w == "less":
            e.pk = e.pk[:-1]
            for r in (e.old, e.new):
                if r is not None:
                    r.pop()
        elif w == "pk":
            j = rng.randrange(len(e.pk))
            e.pk = tuple(not p if q == j else p for q, p in enumerate(e.pk))
        elif w == "nopk":
            e.pk = (False,) * len(e.pk)
        else:
            e.table = rng.choice(["nope", e.table.upper() + "?", "geometry_columns", "spatial_ref_sys", "pg_class", ""])
        if not e.pk:
            raise vf.Skip()
        ctx.count("header:" + w)
    data = encode(es)
    if kind == "mutate":
        data, lab = mutate(rng, data, es)
        open(cs, "wb").write(data)
        before = db.raw()
        r = ctx.call("applyChangesetEx", "postgres", db.info, s1, cs)
        clean(ctx, "apply of an altered file")
        if r.rc and db.raw() != before:
            ctx.fail("not-rolled-back", "an altered file was refused, but the database changed")
        ctx.sig("mutate", lab, r.rc, data)
        ctx.count("mutate:" + lab)
        return
    open(cs, "wb").write(data)
    want = reference(A, es)
    if kind == "overflow":
        big = [e for e in es if not e.table.startswith("gpkg_") for row in (e.old, e.new) if row for v in row if isinstance(v, int) and not -2**31 <= v < 2**31]
        before = db.raw()
        r = ctx.call("applyChangesetEx", "postgres", db.info, s1, cs)
        if big and (r.rc != 1 or db.raw() != before):
            ctx.fail("overflow", f"a value too large for its column: return value {r.rc}, changed {db.raw() != before}")
        clean(ctx, "overflow")
        ctx.count("overflow")
        return
    judge(ctx, db, s1, A, cs, want, f"crafted entries ({kind})")
    ctx.count("crafted:" + ("match" if want is not None else "mismatch"))
    if es:
        ctx.sig(kind, data)


def fault_case(ctx, i):
    """an error, a lost connection or a lack of memory at every statement of one operation"""
    rng = ctx.rng
    op = ["applyChangesetEx", "createChangesetEx", "dumpData", "applyChangesetEx", "makeCopy_to", "makeCopy_from", "rebaseEx", "conflict"][(i // 10) % 8]
    opts = {"tables": rng.choice([1, 2])}
    if op in ("rebaseEx", "makeCopy_from"):
        opts["pk"] = "serial"
    if op == "makeCopy_from":
        opts["geom"] = True
    db, s1, s2, tables, r1, r2 = pg.gen_pair(rng, ctx, opts)
    cs, out = ctx.path("cs"), ctx.path("out")
    ctx.ok("createChangesetEx", "postgres", db.info, s1, s2, cs)
    pristine = ctx.path("pristine")
    inplace = op in ("applyChangesetEx", "rebaseEx", "conflict")
    if op == "makeCopy_to":
        lite = ctx.path("lite.db")
        pg.sqlite_db(lite, [t for t in tables if t.pk and t.gtype is None] or [pg.Table("x", [["a", "integer", True, "int"]], [0], False)], {**r1, "x": {}})
        args = ("makeCopy", "sqlite", "", lite, "postgres", db.info, "copy")
    elif op == "makeCopy_from":
        args = ("makeCopy", "postgres", db.info, s1, "sqlite", "", out)
    elif op == "rebaseEx":
        s3 = "Third"
        db.create(s3, tables, {t.name: pg.edit(rng, t, r1[t.name], 5, (100, 130)) for t in tables})
        args = ("rebaseEx", "postgres", db.info, s1, s3, cs, ctx.path("conf"))
    elif op in ("applyChangesetEx", "conflict"):
        args = ("applyChangesetEx", "postgres", db.info, s2 if op == "conflict" else s1, cs)
    elif op == "createChangesetEx":
        args = (op, "postgres", db.info, s1, s2, out)
    else:
        args = (op, "postgres", db.info, s1, out)
    shutil.copyfile(db.path, pristine)
    before = db.raw()
    ctx.gd.cmd("pgfault", -1, 0)
    r = ctx.call(*args)
    n = clean(ctx, op)["execs"]
    clean_rc = r.rc
    if clean_rc and op not in ("makeCopy_from", "conflict"):
        ctx.fail("clean-run", f"{op} fails without any fault: {r.errors()[-2:]}")
    done = db.raw()
    pts = [(k, kind) for k in range(n) for kind in (1, 2, 3, 4)] + [(0, 5)]
    if len(pts) > 60 and vf.TIER == "quick":
        head = [p for p in pts if p[0] in (0, n - 1, n - 2)]
        pts = head + rng.sample([p for p in pts if p not in head], 60 - len(head))
    for k, kind in pts:
        shutil.copyfile(pristine, db.path)
        for f in (out, ctx.path("conf")):
            if os.path.exists(f):
                os.unlink(f)
        ctx.gd.cmd("pgfault", k, kind)
        r = ctx.call(*args)
        s = ctx.gd.cmd("pgstat")
        ctx.gd.cmd("pgfault", -1, 0)
        what = f"{op}, fault {kind} at statement {k} of {n}"
        if s["conns"] or s["results"]:
            ctx.fail("leak", f"{what}: {s['conns']} connections, {s['results']} results left")
        if not s["fired"] and kind != 5:
            ctx.fail("not-fired", f"{what}: only {s['execs']} statements were run")
        now = db.raw()
        if r.rc not in (0, 1):
            ctx.fail("return-value", f"{what}: {r.rc}")
        if r.rc == 0 and (not inplace or now != done):
            ctx.fail("fault-ignored", f"{what}: success was reported")
        if r.rc == 0:
            ctx.count("fault_without_effect")
        elif inplace or op in ("createChangesetEx", "dumpData", "schema", "makeCopy_from"):
            if now != before:
                ctx.fail("not-rolled-back", f"{what}: the database changed")
        if r.rc and not r.errors():
            ctx.fail("no-message", f"{what}: no error message")
        ctx.count("faults")
        ctx.count(f"kind:{kind}")
        ctx.sig(op, k, kind, n)
    ctx.count("fault:" + op)


def any_case(ctx, i):
    x = i % 10
    return fault_case(ctx, i) if x == 0 else crafted_case(ctx, i) if x in (1, 4, 7) else conflict_case(ctx, i)


def main(only=None):
    c = vf.Check("C26", rule="random changesets applied to schemas that match or diverged, compared with a sequential reference; an error, lost connection or lack of memory at every statement of each operation (emulated server). Non-trivial: refused changeset or fault point, by content",
                 assumptions=["libpq is replaced by /verif/native/pgemu.cpp, which runs the statements in SQLite", "a COMMIT that fails had no effect"])
    n = 1200 if vf.TIER == "quick" else 15000
    c.run_cases(any_case, only or range(n), exe=build.pgrun())
    return c.finish()
