"""The same calls on the same inputs in two environments give the same results."""
import os, re, shutil
import vf, build, dbgen, merge, pg
from c02 import read
from c21 import Sub

_loc = []


def locales():
    if not _loc:
        _loc.append(build.locales())
    return _loc[0]


def state(root, pgdb=None, pre=""):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            b = read(p)
            if f == "pg.db":
                continue
            if b.startswith(b"SQLite format 3"):
                b = dbgen.full_dump(p)
                for t in ("gpkg_contents",):
                    if t in b:      # the time of the copy
                        b[t] = re.sub(r"'20\d\d-\d\d-\d\dT[\d:.]+Z'", "NOW", str(b[t]))
            n = os.path.relpath(p, root)
            out[n[len(pre):] if n.startswith(pre) else n] = b
    if pgdb:
        out["server"] = pgdb.raw()
    return out


def lite_jobs(rng, p, n):
    """calls on base.db, theirs.db, mine.db of a directory"""
    out = [("createChangeset", p("base.db"), p("mine.db"), p("m2")), ("createChangeset", p("base.db"), p("theirs.db"), p("t2"))]
    full = [("createChangesetEx", "sqlite", "", p("theirs.db"), p("mine.db"), p("x.diff")), ("invertChangeset", p("m2"), p("inv")), ("listChanges", p("m2"), p("list.json")),
            ("listChangesSummary", p("m2"), p("sum.json")), ("listChanges", p("t2"), p("list2.json")), ("changesCount", p("m2")), ("hasChanges", p("t2")),
            ("createRebasedChangeset", p("base.db"), p("mine.db"), p("t2"), p("reb"), p("conf1")), ("createRebasedChangesetEx", "sqlite", "", p("base.db"), p("m2"), p("t2"), p("rebex"), p("conf2")),
            ("rebase", p("base.db"), p("theirs.db"), p("mine1.db"), p("conf3")), ("rebaseEx", "sqlite", None, p("base.db"), p("mine2.db"), p("t2"), p("conf4")),
            ("applyChangeset", p("copy1.db"), p("m2")), ("applyChangesetEx", "sqlite", "", p("copy2.db"), p("t2")), ("applyChangeset", p("theirs3.db"), p("m2")),
            ("dumpData", "sqlite", "", p("mine.db"), p("dump")),
            ("makeCopy", "sqlite", "", p("base.db"), "sqlite", "", p("copy3.db")), ("applyChangeset", p("copy3.db"), p("m2")),
            ("listChanges", p("rebex"), p("list3.json")), ("createChangeset", p("nothing.db"), p("base.db"), p("none")), ("applyChangeset", p("copy1.db"), p("garbage"))]
    return out + [j for j in full if rng.random() < n]


def prepare(ctx, d, src, names):
    os.makedirs(d)
    for a, b in names:
        shutil.copyfile(f"{src}/{a}", f"{d}/{b}")


def variant(ctx, rng, how):
    """switch the driver process to another environment; returns the description"""
    gd, desc = ctx.gd, []
    dirs, names = locales()
    gd.cmd("env", "LOCPATH", dirs)
    if names and ("locale" in how):
        n = rng.choice(names)
        gd.cmd("env", "LC_ALL", n)
        gd.cmd("env", "LANG", n)
        if gd.cmd("locale", n)["rc"] == 0:
            desc.append("locale:" + n)
    if "cpp" in how:
        gd.cmd("cpplocale", "1")
        desc.append("c++locale")
    if "tz" in how:
        gd.cmd("env", "TZ", rng.choice(["Asia/Kathmandu", "America/St_Johns", "XXX-14", "YYY+12:34:56", "", ":bogus"]))
        gd.cmd("tzset")
        desc.append("tz")
    if "umask" in how:
        gd.cmd("umask", str(rng.choice([0, 0o77, 0o27])))
        desc.append("umask")
    if "env" in how:
        for k, v in rng.sample([("HOME", None), ("PATH", None), ("LOGNAME", None), ("HOME", "/nonexistent"), ("LANGUAGE", "tr"), ("GEODIFF_LOGGER_LEVEL", "4"), ("GEODIFF_LOGGER_LEVEL", "0"), ("SQLITE_TMPDIR", "/nonexistent"), ("POSIXLY_CORRECT", "1"), ("COLUMNS", "5")], 3):
            gd.cmd("env", k, v)
        desc.append("env")
    return desc


def reset(ctx, pgm):
    gd = ctx.gd
    if gd.p is None:
        return
    for k in ("LC_ALL", "LANG", "LOCPATH", "TZ", "LANGUAGE", "GEODIFF_LOGGER_LEVEL", "SQLITE_TMPDIR", "POSIXLY_CORRECT", "COLUMNS"):
        gd.cmd("env", k, None)
    for k in ("HOME", "PATH", "LOGNAME"):
        gd.cmd("env", k, os.environ.get(k, "/"))
    gd.cmd("tzset")
    gd.cmd("cpplocale", "0")
    gd.cmd("locale", "C")
    gd.cmd("umask", str(0o22))
    gd.cmd("chdir", gd.tmp)
    if pgm:
        gd.cmd("pgreset")


def run(ctx, jobs):
    out = []
    for j in jobs:
        r = ctx.call(*j)
        out.append((j[0], r.rc, any(not m.startswith("SQLITE3:") for m in r.errors())))
    return out


def compare(ctx, a, b, sa, sb, desc, jobs):
    what = "+".join(re.sub(r":.*", "", x) for x in desc)
    for x, y, j in zip(a, b, jobs):
        if x != y:
            ctx.fail(f"result:{what}:{x[0]}", f"{x[0]} returned {x[1]} (error logged: {x[2]}), with {desc}: {y[1]} ({y[2]})")
    for k in sorted(set(sa) | set(sb)):
        if sa.get(k) != sb.get(k):
            x, y = sa.get(k), sb.get(k)
            if isinstance(x, dict) and isinstance(y, dict):
                d = [t for t in set(x) | set(y) if x.get(t) != y.get(t)]
                x, y = {t: x.get(t) for t in d[:1]}, {t: y.get(t) for t in d[:1]}
            ctx.fail(f"output:{what}:{re.sub('[0-9]', '', k)}", f"{k} differs with {desc}: {str(x)[:400]} / {str(y)[:400]}")


WAYS = ["locale", "locale", "cpp", "tz", "umask", "env", "cwd", "names"]
PREFIX = ["-", "--", ":", "%20", "%s%n", "'", '"', "?mode=memory&", "#", "\\", "\n", "é表", " ", "a;b", "...", "x" * 150, "$HOME", "~", "*", "`id`", ":memory:", "[", "\t", "sqlite:"]
DIRS = ["var"] * 2 + ["v'a'r", 'v"ar', "v ar", "v?mode=ro", "v#ar", "v%41r", "vär表", "v\nar", "v;ar", "v" * 200, "-v", "file:v", "a/b/../c/./d"]


def lite_case(ctx, i):
    rng = ctx.rng
    s = Sub(ctx, ctx.path("in"))
    b, th, mi, tables, gpkg = merge.gen_triple(rng, s)
    open(ctx.path("in/garbage"), "wb").write(b"T\x02\x01\0t")
    names = [(x + ".db", x + ".db") for x in ("base", "theirs", "mine")] + [("base.db", "copy1.db"), ("base.db", "copy2.db"), ("mine.db", "mine1.db"), ("mine.db", "mine2.db"), ("theirs.db", "theirs3.db"), ("garbage", "garbage")]
    how = set(rng.sample(WAYS, rng.choice([1, 2, 3])))
    vd, pre = (rng.choice(DIRS), rng.choice(["", *PREFIX])) if "names" in how else ("var", "")
    if vd.startswith("a/"):
        os.makedirs(ctx.path("a/b"))
        os.makedirs(ctx.path("a/c"))
    prepare(ctx, ctx.path("ref"), ctx.path("in"), names)
    prepare(ctx, ctx.path(vd), ctx.path("in"), [(a, pre + b) for a, b in names])
    frac, st = rng.choice([0.4, 1]), rng.getrandbits(30)
    import random
    jr = [lite_jobs(random.Random(st), p, frac) for p in (lambda x: ctx.path("ref/" + x), (lambda x: pre + x) if "cwd" in how else (lambda x: ctx.path(vd + "/" + pre + x)))]
    try:
        reset(ctx, False)
        a = run(ctx, jr[0])
        desc = variant(ctx, rng, how)
        if "cwd" in how:
            ctx.gd.cmd("chdir", ctx.path(vd))
            desc.append("relative")
        if "names" in how:
            desc.append(f"names:{vd!r},{pre!r}")
        v = run(ctx, jr[1])
    finally:
        reset(ctx, False)
    compare(ctx, a, v, state(ctx.path("ref")), state(ctx.path(vd), None, pre), desc, jr[0])
    for x in desc:
        ctx.count("with:" + x[:40])
    if any(r[1] == 0 for r in a):
        ctx.sig("lite", desc, sorted(map(repr, state(ctx.path("ref")).items())))
    ctx.sample({"environment": desc, "calls": [j[0] for j in jr[0]]})


SETTINGS = [("bytea_output", "escape"), ("extra_float_digits", "0"), ("extra_float_digits", "-3"), ("client_encoding", "LATIN1"), ("standard_conforming_strings", "off")]


def pg_jobs(rng, p, info, s1, s2, s3, frac):
    out = [("createChangesetEx", "postgres", info, s1, s2, p("cs")), ("dumpData", "postgres", info, s2, p("dump")), ("applyChangesetEx", "postgres", info, s3, p("cs"))]
    full = [("listChanges", p("cs"), p("l.json")), ("makeCopy", "postgres", info, s1, "sqlite", "", p("copy.gpkg")),
            ("createChangesetEx", "postgres", info, s3, s2, p("none")), ("createChangesetEx", "postgres", info, s2, s1, p("rev")), ("rebaseEx", "postgres", info, s1, s2, p("rev"), p("conf")),
            ("applyChangesetEx", "postgres", info, s1, p("rev")),
            ("makeCopy", "sqlite", "", p("copy.gpkg"), "postgres", info, "copied"), ("dumpData", "postgres", info, "copied", p("dump2"))]
    return out + [j for j in full if rng.random() < frac]


def pg_case(ctx, i):
    rng = ctx.rng
    import random
    db, s1, s2, tables, r1, r2 = pg.gen_pair(rng, ctx, {"geom": True} if rng.random() < 0.6 else None)
    s3 = "third's"
    db.create(s3, tables, r1)
    how = set(rng.sample(WAYS, rng.choice([0, 1, 2]))) - {"cwd", "umask", "names"}
    sets = rng.sample(SETTINGS, rng.choice([0, 1, 1, 2])) if how else rng.sample(SETTINGS, rng.choice([1, 2]))
    dbs = []
    for d in ("ref", "var"):
        os.makedirs(ctx.path(d))
        shutil.copyfile(db.path, ctx.path(d + "/pg.db"))
        x = pg.Db.__new__(pg.Db)
        x.ctx, x.path = ctx, ctx.path(d + "/pg.db")
        x.info = "host=localhost user=x dbname=" + x.path
        dbs.append(x)
    frac, st = rng.choice([0.5, 1]), rng.getrandbits(30)
    jr = [pg_jobs(random.Random(st), (lambda d: lambda x: ctx.path(d + "/" + x))(d), x.info, s1, s2, s3, frac) for d, x in zip(("ref", "var"), dbs)]
    try:
        reset(ctx, True)
        a = run(ctx, jr[0])
        reset(ctx, True)
        desc = variant(ctx, rng, how)
        for k, v in sets:
            ctx.gd.cmd("pgset", k, v)
            desc.append("server:" + k)
        v = run(ctx, jr[1])
    finally:
        reset(ctx, True)
    sa, sb = state(ctx.path("ref"), dbs[0]), state(ctx.path("var"), dbs[1])
    # only the last setting is named in the key
    compare(ctx, a, v, sa, sb, desc, jr[0])
    for x in desc:
        ctx.count("with:" + x)
    if any(r[1] == 0 for r in a):
        ctx.sig("pg", desc, [t.ddl("s") for t in tables], sorted(map(repr, r1.items())), sorted(map(repr, r2.items())))


def any_case(ctx, i):
    return lite_case(ctx, i) if i % 2 else pg_case(ctx, i)


def main(only=None):
    c = vf.Check("C30", rule="the same calls in two environments (C and C++ locale, time zone, umask, variables, working directory with relative names; for PostgreSQL settings of the role): same codes, same files, same rows. Non-trivial: at least one call succeeded (counted by environment and inputs)",
                 assumptions=["PostgreSQL is emulated (native/pgemu.cpp), settings follow its documentation", "locales are compiled with localedef from the system's definitions; without it only the C++ locale is varied", "libgpkg is replaced by /verif/native/gpkg_shim.cpp"])
    n = 800 if vf.TIER == "quick" else 12000
    locales()
    c.run_cases(any_case, only or range(n), exe=build.pgrun())
    return c.finish()
