import collections, os, shutil, sqlite3
import vf, dbgen
from changeset import decode, conformance, FormatError


def read(p):
    with open(p, "rb") as f:
        return f.read()


def same_db(ctx, src, dst, rng, tables):
    """a database with the same rows as src but another file: rewritten, edited back and forth, other row order, ANALYZEd"""
    shutil.copyfile(src, dst)
    c = dbgen.connect(dst)
    c.execute("PRAGMA synchronous=OFF")
    how = []
    if rng.random() < 0.5:
        for t in tables:
            c.execute("BEGIN")
            dbgen.random_edits(rng, c, t, 5)
            c.execute("ROLLBACK")
        how.append("rollback")
    if rng.random() < 0.4:
        c.execute(f"PRAGMA page_size={rng.choice([512, 2048, 8192])}")
        c.execute("VACUUM")
        how.append("vacuum")
    if rng.random() < 0.4:
        # delete all rows and insert them again in another order
        c.execute("BEGIN")
        for t in tables:
            if any(t.pk) or t.pk == [0]:
                cols = ",".join(dbgen.q(x[0]) for x in t.cols)
                rows = c.execute(f"SELECT {cols} FROM {dbgen.q(t.name)}").fetchall()
                c.execute(f"DELETE FROM {dbgen.q(t.name)}")
                rng.shuffle(rows)
                for r in rows:
                    c.execute(f"INSERT INTO {dbgen.q(t.name)} ({cols}) VALUES ({','.join('?' * len(r))})", r)
        c.execute("COMMIT")
        how.append("reordered")
    if rng.random() < 0.2:
        c.execute("ANALYZE")
        how.append("analyze")
    c.close()
    return how


def check_entries(ctx, data, a, b, what):
    try:
        es = decode(data)
    except FormatError as e:
        ctx.fail("undecodable", f"{what} can't be decoded: {e}")
    got = collections.Counter(dbgen.entries_set(es))
    want = collections.Counter(dbgen.ref_diff(a, b))
    if got != want:
        miss, extra = want - got, got - want
        kinds = sorted({("missing", k[1]) for k in miss} | {("extra", k[1]) for k in extra})
        ctx.fail("entries-differ:" + "+".join(f"{a}{b}" for a, b in kinds), f"{what}: {sum(miss.values())} entries missing, {sum(extra.values())} unexpected; missing {list(miss)[:2]} unexpected {list(extra)[:2]}")
    return es


def case(ctx, i):
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"wide": True})
    a, b = dbgen.dump(base), dbgen.dump(mod)
    cs, cs2 = ctx.path("out.diff"), ctx.path("again.diff")
    if rng.random() < 0.3:
        open(cs, "wb").write(b"T\x01\x01old\0garbage" * 50)        # an older file has to be replaced
    ctx.ok("createChangeset", base, mod, cs)
    data = read(cs)
    es = check_entries(ctx, data, a, b, "changeset")
    bad = conformance(data)[1]
    if bad:
        ctx.fail("not-minimal", str(bad[:3]))
    n = ctx.call("changesCount", cs).rc
    if n != len(es):
        ctx.fail("count", f"changesCount {n}, entries {len(es)}")
    h = ctx.call("hasChanges", cs).rc
    if h != (1 if es else 0):
        ctx.fail("haschanges", f"hasChanges {h}, entries {len(es)}")
    if rng.random() < 0.5:
        ctx.ok("createChangeset", base, mod, cs2)
    else:
        ctx.ok("createChangesetEx", "sqlite", "", base, mod, cs2)
    if read(cs2) != data:
        ctx.fail("not-deterministic", "creating the changeset again gave other bytes")
    # the opposite direction
    rev = ctx.path("rev.diff")
    ctx.ok("createChangeset", mod, base, rev)
    check_entries(ctx, read(rev), b, a, "reverse changeset")
    # a database with the same content
    same = ctx.path("same.db")
    how = same_db(ctx, mod, same, rng, tables)
    ident = ctx.path("ident.diff")
    if dbgen.norm(dbgen.dump(same)) == dbgen.norm(b):
        ctx.ok("createChangeset", mod, same, ident)
        if read(ident):
            ctx.fail("identical-not-empty", f"databases with the same rows ({how}) gave a changeset with {decode(read(ident))[:3]}")
        if ctx.call("hasChanges", ident).rc != 0:
            ctx.fail("haschanges", "hasChanges is not 0 for identical databases")
        ctx.ok("createChangeset", base, same, ident)
        check_entries(ctx, read(ident), a, b, "changeset to an equivalent database")
        for h in how:
            ctx.count("same:" + h)
    for e in es:
        ctx.count("entry:%d" % e.op)
    if es:
        ctx.sig(sorted(map(repr, dbgen.entries_set(es))))
    ctx.sample({"tables": [t.ddl() for t in tables], "entries": [repr(e)[:200] for e in es[:3]]})


def main(only=None):
    c = vf.Check("C02", rule="random pairs; the decoded changeset equals an independent diff; equal databases (rewritten, vacuumed, reordered) give an empty one. Non-trivial: at least one entry (counted by set of entries)",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "keys are equal bytes or numbers when SQLite says so, rows with a null key are not compared"])
    n = 2500 if vf.TIER == "quick" else 30000
    c.run_cases(case, only or range(n))
    return c.finish()
