import shutil
import vf, dbgen, merge
from c02 import read


def case(ctx, i):
    rng = ctx.rng
    base, theirs, mine, tables, gpkg = merge.gen_triple(rng, ctx)
    B, T, M = dbgen.dump(base), dbgen.dump(theirs), dbgen.dump(mine)
    plans, conflicts = merge.plan(B, T, M)
    out, conf = ctx.path("mine_rebased.db"), ctx.path("conflicts.json")
    shutil.copyfile(mine, out)
    if rng.random() < 0.5:
        how = "rebase"
        r = ctx.call("rebase", base, theirs, out, conf)
    else:
        t2 = ctx.path("base2theirs.diff")
        ctx.ok("createChangeset", base, theirs, t2)
        how = "rebaseEx"
        r = ctx.call("rebaseEx", "sqlite", "", base, out, t2, conf)
    if r.rc != 0:
        if not merge.odd_keys(plans):
            ctx.fail(how + "-failed", f"{how} returned {r.rc}: {r.errors()[-2:]}")
        if dbgen.norm(dbgen.dump(out)) != dbgen.norm(M) or dbgen.schema_of(out) != dbgen.schema_of(mine):
            ctx.fail("refused-altered", f"{how} failed and changed the database")
        ctx.count("unsupported_key_refused")
        return
    R = dbgen.dump(out)
    if set(R) != set(B):
        ctx.fail("tables", "tables differ after rebase")
    merge.check_merged(ctx, R, plans, how)
    for t in B:
        if "list" in B[t] and R[t]["list"] != M[t]["list"]:
            ctx.fail("unkeyed-touched", f"table {t} without a key was changed")
    if dbgen.integrity(out) != [("ok",)]:
        ctx.fail("integrity", "rebased database fails integrity_check")
    if dbgen.schema_of(out) != dbgen.schema_of(mine):
        ctx.fail("schema", "rebase changed the schema")
    for s in merge.strata(plans, conflicts):
        ctx.count("met:" + s)
        ctx.sig(how, s, [t.ddl() for t in tables])
    ctx.sample({"tables": [t.ddl() for t in tables], "met": sorted(merge.strata(plans, conflicts))})


def fresh_case(ctx, i):
    """keys given explicitly below the highest key of base: both sides insert 5 while base has 6"""
    base, theirs, mine, conf = (ctx.path(x) for x in ("base.db", "theirs.db", "mine.db", "conf.json"))
    c = dbgen.connect(base)
    c.execute("CREATE TABLE t (fid INTEGER PRIMARY KEY, v TEXT)")
    c.execute("INSERT INTO t VALUES (1,'a'),(6,'six')")
    c.close()
    for f, v in ((theirs, "theirs"), (mine, "mine")):
        shutil.copyfile(base, f)
        c = dbgen.connect(f)
        c.execute("INSERT INTO t VALUES (5,?)", (v,))
        c.close()
    B, T, M = dbgen.dump(base), dbgen.dump(theirs), dbgen.dump(mine)
    ctx.ok("rebase", base, theirs, mine, conf, key="fresh-key-taken-in-base")
    merge.check_merged(ctx, dbgen.dump(mine), merge.plan(B, T, M)[0], "rebase")
    ctx.sig("fresh")


def alias_case(ctx, i):
    """one file named twice: documented to work when base is modified or base is theirs"""
    rng = ctx.rng
    base, theirs, mine, tables, gpkg = merge.gen_triple(rng, ctx)
    B, T, M = dbgen.dump(base), dbgen.dump(theirs), dbgen.dump(mine)
    conf = ctx.path("conflicts.json")
    other = lambda p: rng.choice([p, ctx.dir + "/./" + p.rsplit("/", 1)[1]])
    w = rng.choice(["base is modified", "base is theirs", "all the same"])
    if w == "base is modified":
        ctx.ok("rebase", base, theirs, other(base), conf, key="alias-failed")
        f, want = base, T
    elif w == "base is theirs":
        ctx.ok("rebase", base, other(base), mine, conf, key="alias-failed")
        f, want = mine, M
    else:
        ctx.ok("rebase", mine, other(mine), other(mine), conf, key="alias-failed")
        f, want = mine, M
    got = dbgen.dump(f)
    keyed = lambda x: {t: v for t, v in dbgen.norm(x).items() if isinstance(v, dict)}
    if keyed(got) != keyed(want):
        ctx.fail("alias-rows", f"{w}: " + dbgen.diffdesc(got, want))
    for p, d in ((base, B), (theirs, T), (mine, M)):
        if p != f and dbgen.norm(dbgen.dump(p)) != dbgen.norm(d):
            ctx.fail("input-altered", f"{w}: {p} was changed")
    if dbgen.integrity(f) != [("ok",)]:
        ctx.fail("integrity", "rebased database fails integrity_check")
    ctx.count("alias:" + w)
    ctx.sig(w, [t.ddl() for t in tables])


def any_case(ctx, i):
    return fresh_case(ctx, i) if i == 0 else alias_case(ctx, i) if i % 25 == 1 else case(ctx, i)


def main(only=None):
    c = vf.Check("C04", rule="random triples whose edits meet on the same keys; in-place rebase compared with a merge model. Non-trivial: kinds of edits that met on one key, by schema",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "keys of new rows lie above all keys of base (see known finding)"])
    n = 3000 if vf.TIER == "quick" else 20000
    c.run_cases(any_case, only or range(n))
    return c.finish()
