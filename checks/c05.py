import hashlib, os, shutil
import vf, dbgen, merge
from changeset import decode, conformance, FormatError, crow
from c02 import read
from c03 import form


def sha(p):
    return hashlib.sha256(read(p)).hexdigest()


def case(ctx, i):
    rng = ctx.rng
    base, theirs, mine, tables, gpkg = merge.gen_triple(rng, ctx)
    B, T, M = dbgen.dump(base), dbgen.dump(theirs), dbgen.dump(mine)
    plans, conflicts = merge.plan(B, T, M)
    t2, m2 = ctx.path("base2theirs.diff"), ctx.path("base2mine.diff")
    ctx.ok("createChangeset", base, theirs, t2)
    ctx.ok("createChangeset", base, mine, m2)
    es_t, es_m = decode(read(t2)), decode(read(m2))
    reb, conf = ctx.path("rebased.diff"), ctx.path("conf.json")
    if rng.random() < 0.3:
        open(reb, "wb").write(b"old file")
    inputs = [base, theirs, mine, t2, m2]
    before = [sha(p) for p in inputs]
    if rng.random() < 0.5:
        how = "createRebasedChangeset"
        r = ctx.call(how, base, mine, t2, reb, conf)
    else:
        how = "createRebasedChangesetEx"
        r = ctx.call(how, "sqlite", "", base, m2, t2, reb, conf)
    for p, h in zip(inputs, before):
        if not os.path.exists(p) or sha(p) != h:
            ctx.fail("input-altered", f"{how} altered its input {os.path.basename(p)}")
    if r.rc != 0:
        if not merge.odd_keys(plans):
            ctx.fail(how + "-failed", f"{how} returned {r.rc}: {r.errors()[-2:]}")
        ctx.count("unsupported_key_refused")
        return
    if not os.path.exists(reb):
        ctx.fail("no-output", f"{how} succeeded without output (theirs {len(es_t)} entries, mine {len(es_m)})")
    try:
        es = decode(read(reb))
    except FormatError as e:
        ctx.fail("undecodable", f"rebased changeset: {e}")
    if not es_t:
        if form(es) != form(es_m):
            ctx.fail("no-theirs", f"they have no changes, but the rebased changeset is not mine: {es[:3]} / {es_m[:3]}")
        ctx.count("theirs_empty")
    if not es_m:
        if read(reb) or ctx.call("hasChanges", reb).rc != 0:
            ctx.fail("no-mine", f"I have no changes, but the rebased changeset is not empty: {es[:3]}")
        ctx.count("mine_empty")
    # on top of theirs
    out = ctx.path("theirs_plus_rebased.db")
    shutil.copyfile(theirs, out)
    ctx.ok("applyChangeset", out, reb, key="rebased-conflicts")
    R = dbgen.dump(out)
    merge.check_merged(ctx, R, plans, how + " on top of theirs")
    # in place
    inp = ctx.path("inplace.db")
    shutil.copyfile(mine, inp)
    conf2 = ctx.path("conf2.json")
    ctx.ok("rebase", base, theirs, inp, conf2)
    d = dbgen.dump(inp)
    keyed = lambda x: {t: v for t, v in dbgen.norm(x).items() if isinstance(v, dict)}
    if keyed(d) != keyed(R):
        ctx.fail("routes-differ", "in-place rebase and theirs + rebased changeset differ: " + dbgen.diffdesc(d, R))
    if os.path.exists(conf) != os.path.exists(conf2) or (os.path.exists(conf) and read(conf) != read(conf2)):
        ctx.fail("conflicts-differ", "the two routes report different conflicts")
    # the server goes on: mine + (inverse of mine, theirs, rebased) as separate steps
    st = ctx.path("steps.db")
    shutil.copyfile(mine, st)
    inv = ctx.path("inv.diff")
    ctx.ok("invertChangeset", m2, inv)
    for p in (inv, t2, reb):
        ctx.ok("applyChangeset", st, p, key="steps-failed")
    d = dbgen.dump(st)
    if keyed(d) != keyed(R):
        ctx.fail("steps-differ", "undo mine, apply theirs, apply rebased differs from the rebased database: " + dbgen.diffdesc(d, R))
    for s in merge.strata(plans, conflicts):
        ctx.count("met:" + s)
        ctx.sig(how, s, [t.ddl() for t in tables])
    for e in es:
        ctx.count("rebased_entry:%d" % e.op)
    ctx.sample({"tables": [t.ddl() for t in tables], "entries": [len(es_t), len(es_m), len(es)]})


def main(only=None):
    c = vf.Check("C05", rule="random triples; rebased changeset applied on theirs, rebase in place and step by step give the same rows. Non-trivial: kinds of edits that met on one key, by schema",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "keys of new rows lie above all keys of base (see C04's known finding)"])
    n = 2500 if vf.TIER == "quick" else 15000
    c.run_cases(case, only or range(n))
    return c.finish()
