import itertools, os, re, shutil
import vf, dbgen, merge
from changeset import encode, decode
from c02 import read
from c15 import listing

# role of each argument: d driver, x optional driver info, D database read, M database written, C changeset read, O output, K conflict file (optional output)
SIG = {"createChangeset": "DDO", "createChangesetEx": "dxDDO", "invertChangeset": "CO", "applyChangeset": "MC", "applyChangesetEx": "dxMC",
       "createRebasedChangeset": "DDCOK", "createRebasedChangesetEx": "dxDCCOK", "rebase": "DDMK", "rebaseEx": "dxDMCK", "hasChanges": "C", "changesCount": "C",
       "listChanges": "CO", "listChangesSummary": "CO", "makeCopy": "dxDdxO", "dumpData": "dxDO"}
UNUSED = {"createRebasedChangesetEx": {0, 2}}       # documented in the source as not looked at yet: only null is refused


def values(role, P, kind):
    if kind == "null":
        return None
    if kind == "empty":
        return ""
    if kind == "missing":
        return P("missing/nothing") if role in "OK" else P("missing")
    if kind == "directory":
        return P("adir")
    if kind == "below a file":
        return P("afile/x")
    if kind == "unknown":
        return "nodriver"
    if kind == "odd":
        return P("%s%n\nodd'\"")
    if kind == "long":
        return P("n" * 5000)
    raise KeyError(kind)


KINDS = {"d": ["null", "empty", "unknown", "good"], "x": ["null", "empty", "good"], "D": ["null", "empty", "missing", "directory", "below a file", "odd", "long", "good"], "M": ["null", "empty", "missing", "directory", "good"],
         "C": ["null", "empty", "missing", "directory", "below a file", "long", "good"], "O": ["null", "empty", "missing", "directory", "below a file", "long", "good"], "K": ["null", "empty", "missing", "directory", "good"]}


def setup(ctx):
    rng, P = ctx.rng, ctx.path
    for _ in range(20):
        for n in os.listdir(ctx.dir):
            p = P(n)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        base, theirs, mine, tables, gpkg = merge.gen_triple(rng, ctx, {"pk": "int"})
        ctx.ok("createChangeset", base, theirs, P("bt.diff"))
        ctx.ok("createChangeset", base, mine, P("bm.diff"))
        if os.path.getsize(P("bt.diff")) and os.path.getsize(P("bm.diff")):
            break
    else:
        raise vf.Skip()
    os.makedirs(P("adir/sub"))
    with open(P("adir/keep"), "w") as f:
        f.write("k")
    with open(P("afile"), "w") as f:
        f.write("x")
    c = dbgen.connect(P("empty.db"))
    c.execute("PRAGMA user_version=3")
    c.close()
    shutil.copyfile(mine, P("m.db"))
    shutil.copyfile(base, P("b.db"))
    return base, theirs, mine


def good(fn, roles, P):
    db = {"createChangeset": ["base.db", "theirs.db"], "createChangesetEx": ["base.db", "theirs.db"], "createRebasedChangeset": ["base.db", "mine.db"], "createRebasedChangesetEx": ["base.db"],
          "rebase": ["base.db", "theirs.db"], "rebaseEx": ["base.db"], "makeCopy": ["empty.db"], "dumpData": ["mine.db"]}.get(fn, [])
    cs = {"createRebasedChangesetEx": ["bm.diff", "bt.diff"], "rebaseEx": ["bt.diff"], "createRebasedChangeset": ["bt.diff"]}.get(fn, ["bt.diff"])
    mod = "b.db" if fn.startswith("apply") else "m.db"
    db, cs = iter(db), iter(cs)
    out = []
    for r in roles:
        out.append({"d": lambda: "sqlite", "x": lambda: "", "D": lambda: P(next(db)), "C": lambda: P(next(cs)), "M": lambda: P(mod), "O": lambda: P("out.bin"), "K": lambda: P("conf.json")}[r]())
    return out


def state(ctx, skip):
    return {p: (k, read(p) if k == "file" else None) for p, k in listing(ctx.dir).items() if p not in skip}


def expect_error(fn, roles, kinds):
    """must the call fail"""
    bad = []
    for n, (r, k) in enumerate(zip(roles, kinds)):
        if k == "good" or r == "x":
            continue
        if k == "null":
            bad.append(n)
        elif n in UNUSED.get(fn, ()):
            continue
        elif r == "K":
            continue
        else:
            bad.append(n)
    return bad


def one(ctx, fn, roles, kinds, ok_result, before):
    P = ctx.path
    args = [g if k == "good" else values(r, P, k) for g, r, k in zip(good(fn, roles, P), roles, kinds)]
    if fn == "makeCopy":
        # null extra info and empty extra info of the same file are told apart nowhere
        pass
    bad = expect_error(fn, roles, kinds)
    outs = {a for a, r, k in zip(args, roles, kinds) if r in "OK" and a and k == "good"}
    stale = b"an older output" if ctx.rng.random() < 0.5 else None
    if stale:
        for a in outs:
            with open(a, "wb") as f:
                f.write(stale)
    r = ctx.call(fn, *args)
    err = r.rc == -1 if fn in ("hasChanges", "changesCount") else r.rc != 0
    what = f"{fn}({', '.join(kinds)})"
    if bad and not err:
        ctx.fail("accepted:" + fn, f"{what} returned {r.rc}")
    if err and not r.errors():
        ctx.fail("silent:" + fn, f"{what} returned {r.rc} and logged no error")
    written = {a for a, ro, k in zip(args, roles, kinds) if ro == "M" and k == "good"} if not bad else set()
    after = state(ctx, outs | written)
    want = {p: v for p, v in before.items() if p not in outs | written}
    if after != want:
        diff = sorted(os.path.relpath(p, ctx.dir) for p in set(after) | set(want) if after.get(p) != want.get(p))
        ctx.fail("altered:" + fn, f"{what} (rc {r.rc}) altered {diff[:5]}")
    if stale and bad and any(k == "null" and ro != "x" for k, ro in zip(kinds, roles)):
        for a, ro in zip(args, roles):
            if a in outs and ro == "O" and (not os.path.exists(a) or read(a) != stale):
                ctx.fail("older-output:" + fn, f"{what} (rc {r.rc}) destroyed the older output")
    optional = all(k == "good" or ro == "x" for ro, k in zip(roles, kinds))
    if optional and err:
        ctx.fail("optional:" + fn, f"{what} returned {r.rc}: {r.errors()[-1:]}")
    if optional:
        res = [read(a) if os.path.exists(a) and not read(a).startswith(b"SQLite") else os.path.exists(a) for a in sorted(outs)]
        if ok_result.setdefault(fn, res) != res:
            ctx.fail("optional:" + fn, f"{what} gave another result than without the optional argument")
    # put things back
    for a in outs:
        if os.path.isfile(a):
            os.unlink(a)
    if written:
        for a in written:
            shutil.copyfile(P("mine.db") if a == P("m.db") else P("base.db"), a)
    ctx.count("null" if "null" in kinds else "other")
    ctx.count("errors" if err else "successes")
    ctx.sig(fn, kinds, r.rc)


def case(ctx, i):
    rng = ctx.rng
    fns = sorted(SIG)
    setup(ctx)
    ctx.gd.cmd("chdir", ctx.dir)
    before = state(ctx, ())
    ok_result = {}
    fn = fns[i % len(fns)]
    roles = SIG[fn]
    combos = list(itertools.product(*[KINDS[r] for r in roles]))
    if len(combos) > 300:
        few = [c for c in combos if sum(k != "good" for k in c) <= 2]
        combos = rng.sample(few, min(len(few), 250)) + rng.sample(combos, 120)
    for kinds in combos:
        one(ctx, fn, roles, kinds, ok_result, before)
    ctx.gd.cmd("chdir", ctx.gd.tmp)
    v = ctx.gd.cmd("version")["version"]
    if not re.fullmatch(r"\d+\.\d+\.\d+", v):
        ctx.fail("version", v)


def postgres(ctx, i):
    """the driver without a server"""
    setup(ctx)
    P = ctx.path
    before = state(ctx, ())
    for info in (None, "", "host=127.0.0.1 port=1 connect_timeout=2", "nonsense", "host=/nonexistent", "=", "%s%n", "dbname='"):
        for fn, args in (("createChangesetEx", ["postgres", info, "a", "b", P("out.bin")]), ("applyChangesetEx", ["postgres", info, "a", P("bt.diff")]), ("dumpData", ["postgres", info, "a", P("out.bin")]),
                         ("makeCopy", ["postgres", info, "a", "sqlite", None, P("copy.db")]), ("makeCopy", ["sqlite", None, P("empty.db"), "postgres", info, "dst"]), ("rebaseEx", ["postgres", info, "a", "b", P("bt.diff"), P("conf.json")])):
            r = ctx.call(fn, *args)
            if r.rc == 0:
                ctx.fail("accepted:" + fn, f"{fn}{args} returned success")
            if not r.errors():
                ctx.fail("silent:" + fn, f"{fn}{args} failed and logged no error")
            ctx.sig("pg", fn, info)
            if os.path.exists(P("out.bin")):
                os.unlink(P("out.bin"))
    if state(ctx, ()) != before:
        ctx.fail("altered:postgres", "files were altered")


def any_case(ctx, i):
    return postgres(ctx, i) if i % 16 == 15 else case(ctx, i)


def main(only=None):
    c = vf.Check("C22", rule="every function with combinations of null, empty, missing, directory, unreachable, over-long and valid arguments (all of them for up to 3 arguments, one and two faulty ones and random ones beyond). Non-trivial: distinct (function, kinds, result)",
                 assumptions=["driver name and base of createRebasedChangesetEx are not looked at by the library and only null is refused", "an unusable conflict file is an error only when there are conflicts"])
    c.run_cases(any_case, only or range(208 if vf.TIER == "quick" else 1600))
    return c.finish()
