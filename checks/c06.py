import os, shutil
import vf, dbgen, merge, jsonval
from changeset import canon
from c02 import read


def records(ctx, path, B):
    """{(table, key, column): (base, old, new)} of a conflict file"""
    try:
        j = jsonval.load(read(path))
    except jsonval.Bad as e:
        ctx.fail("invalid-json", f"conflict file: {e}: {read(path)[:300]}")
    out = {}
    if set(j) != {"geodiff"} or not isinstance(j["geodiff"], list) or not j["geodiff"]:
        ctx.fail("format", f"conflict file: {str(j)[:200]}")
    for f in j["geodiff"]:
        if set(f) != {"table", "type", "fid", "changes"} or f["type"] != "conflict" or not f["changes"]:
            ctx.fail("format", f"conflict record: {str(f)[:200]}")
        for c in f["changes"]:
            k = (f["table"], f["fid"], c.get("column"))
            if k in out:
                ctx.fail("repeated", f"conflict {k} listed twice")
            if set(c) - {"column", "base", "old", "new"}:
                ctx.fail("format", f"conflict item: {str(c)[:200]}")
            out[k] = tuple(c.get(x, jsonval.MISSING) for x in ("base", "old", "new"))
    return out


def case(ctx, i):
    rng = ctx.rng
    base, theirs, mine, tables, gpkg = merge.gen_triple(rng, ctx)
    B, T, M = dbgen.dump(base), dbgen.dump(theirs), dbgen.dump(mine)
    plans, conflicts = merge.plan(B, T, M)
    if merge.odd_keys(plans):
        raise vf.Skip()
    t2, m2, reb, conf = ctx.path("t2.diff"), ctx.path("m2.diff"), ctx.path("reb.diff"), ctx.path("conf.json")
    stale = rng.random() < 0.4
    if stale:
        open(conf, "w").write('{"geodiff": [{"table": "old"}]}' + " " * 5000)
    ctx.ok("createChangeset", base, theirs, t2)
    how = rng.choice(["rebase", "rebaseEx", "createRebasedChangeset", "createRebasedChangesetEx"])
    if how == "rebase":
        out = ctx.path("out.db")
        shutil.copyfile(mine, out)
        ctx.ok(how, base, theirs, out, conf)
    elif how == "rebaseEx":
        out = ctx.path("out.db")
        shutil.copyfile(mine, out)
        ctx.ok(how, "sqlite", rng.choice([None, ""]), base, out, t2, conf)
    elif how == "createRebasedChangeset":
        ctx.ok(how, base, mine, t2, reb, conf)
    else:
        ctx.ok("createChangeset", base, mine, m2)
        ctx.ok(how, "sqlite", "", base, m2, t2, reb, conf)
    want = {}
    for (t, k, col), vals in conflicts.items():
        ty, kv = k[0]
        want[(t, str(kv), col)] = vals
    ctx.count("stale_file" if stale else "no_file_before")
    if not want:
        if os.path.exists(conf):
            ctx.fail("file-without-conflicts", f"{how}: no conflicts, but there is a conflict file{' (older one)' if stale else ''}: {read(conf)[:300]}")
        ctx.count("without_conflicts")
        if any(p[3].any() and p[4].any() for p in plans.values()):
            ctx.sig("none", how, [t.ddl() for t in tables])
        return
    if not os.path.exists(conf):
        ctx.fail("no-file", f"{how}: no conflict file for {list(want)[:4]}")
    got = records(ctx, conf, B)
    if set(got) != set(want):
        ctx.fail("records", f"{how}: conflicts missing {[(k, want[k]) for k in set(want) - set(got)][:3]}, unexpected {[(k, got[k]) for k in set(got) - set(want)][:3]}")
    for k, vals in want.items():
        for name, j, v in zip(("base", "old", "new"), got[k], vals):
            if not jsonval.matches(j, v):
                ctx.fail("value", f"{how}: conflict {k}: {name} is {str(j)[:80]}, expected {str(v)[:80]}")
    ctx.count("conflict_records", len(want))
    ctx.sig(sorted((k, repr(v)) for k, v in want.items()))
    ctx.sample({"how": how, "conflicts": [repr((k, v))[:200] for k, v in list(want.items())[:3]]})


def main(only=None):
    c = vf.Check("C06", rule="random triples, all four rebase functions; the conflict file compared with the computed contradictions. Non-trivial: distinct sets of conflicts, and schemas where both sides changed a table without conflict",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp"])
    n = 3000 if vf.TIER == "quick" else 20000
    c.run_cases(case, only or range(n))
    return c.finish()
