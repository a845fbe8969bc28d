"""Allocations of the library itself (operator new) fail: an error, never an exception or the end of the process."""
import os, shutil
import vf, build, dbgen, pg
from c13 import Op, reference, judge, scenario
from c14 import more_ops
from c25 import clean


def obs(ctx):
    o = ctx.gd.cmd("obs")
    return o["fds"], o["sqlite"]


def judge_call(ctx, op, r, ref, what, sticky, before):
    if r.rc == -77:
        ctx.fail("escaped:" + op.fn, f"{op.fn}: an exception left the C interface with {what}")
    if r.rc == 0 or (op.fn in ("hasChanges", "changesCount") and r.rc >= 0):
        ctx.count("success")
        if op.fn in ("hasChanges", "changesCount"):
            if r.rc != ref:
                ctx.fail("success:" + op.fn, f"{op.fn} returned {r.rc} instead of {ref} with {what}")
        else:
            st = op.state()
            if st != ref:
                n = next(j for j in range(len(st)) if st[j] != ref[j])
                if isinstance(st[n], dict) and isinstance(ref[n], dict):
                    st[n], ref[n] = ({k: [y for y in x.get(k, []) if y not in z.get(k, [])] if isinstance(x.get(k), list) else x.get(k) for k in set(x) | set(z) if x.get(k) != z.get(k)} for x, z in ((st[n], ref[n]), (ref[n], st[n])))
                ctx.fail("success:" + op.fn, f"{op.fn} returned success with {what}, but output {n} is {str(st[n])[:200]} instead of {str(ref[n])[:200]}")
    else:
        ctx.count("error reported")
        if op.fn == "applyChangeset" and op.inplace:
            st = op.state()
            if st[-1] != dbgen.full_dump(op.inplace[0][1]):
                ctx.fail("partial:" + op.fn, f"{op.fn} failed with {what} and left the database changed")
        if not r.errors():
            if sticky:
                ctx.count("error without a message (no memory for it)")
            else:
                ctx.fail("silent:" + op.fn, f"{op.fn} failed with {what} and logged no error")
    now = obs(ctx)
    if now != before:
        ctx.fail("leak:" + op.fn, f"{op.fn} with {what}: open descriptors, SQLite memory {before} before and {now} after")


def run_op(ctx, op, ref, limit):
    rng = ctx.rng
    op.reset()
    ctx.gd.cmd("new", "-1", "0", "0")
    _, sites = ctx.gd.sites("n", op.fn, *op.args)
    total = len(sites)
    before = obs(ctx)
    ks = vf.pick_sites(rng, sites, limit)
    plan = [(str(k), rng.choice("0001"), "0") for k in ks] + [("-1", "0", str(rng.choice([32, 64, 100, 200, 500, 1000, 4000, 9000]))) for _ in range(3)]
    for k, st, big in plan:
        op.reset()
        ctx.gd.cmd("new", k, st, big)
        try:
            r = ctx.call(op.fn, *op.args)
        except vf.Died as e:
            raise vf.CheckFail("ended:" + op.fn, f"{op.fn}: the process ended (status {e.status}) with allocation {k} of {total} failing (sticky {st}, at least {big} bytes)", report=e.report[-4000:])
        ctx.gd.cmd("new", "-1", "0", "0")
        what = f"allocation {k} of {total} failing (sticky {st})" if big == "0" else f"allocations of at least {big} bytes failing"
        judge_call(ctx, op, r, ref, what, st == "1" or big != "0", before)
        ctx.count("allocation_failures", r.vfs["newfired"])
        if r.vfs["newfired"]:
            ctx.sig(op.fn, k, total, st, big, r.rc)
    # SQLite's own allocator, alone or together with the library's (not where the server's stand-in uses SQLite too)
    op.reset()
    ctx.gd.cmd("mem", "-1", "0")
    sites = [] if isinstance(op, PgOp) else ctx.gd.sites("m", op.fn, *op.args)[1]
    for k in vf.pick_sites(rng, sites, limit // 2):
        op.reset()
        st = rng.choice("0001")
        both = rng.random() < 0.15 and total
        if both:
            ctx.gd.cmd("new", str(rng.randrange(total)), st, "0")
        ctx.gd.cmd("mem", str(k), st)
        try:
            r = ctx.call(op.fn, *op.args)
        except vf.Died as e:
            raise vf.CheckFail("ended:" + op.fn, f"{op.fn}: the process ended (status {e.status}) with SQLite allocation {k} of {len(sites)} failing (sticky {st})", report=e.report[-4000:])
        ctx.gd.cmd("mem", "-1", "0")
        ctx.gd.cmd("new", "-1", "0", "0")
        judge_call(ctx, op, r, ref, f"SQLite allocation {k} of {len(sites)} failing (sticky {st}){' and another allocation' if both else ''}", st == "1", before)
        ctx.count("sqlite_allocation_failures", r.vfs["memfired"])
        if r.vfs["memfired"]:
            ctx.sig("mem", op.fn, k, len(sites), st, r.rc)
    op.reset()
    r = ctx.call(op.fn, *op.args)
    after = r.rc if op.fn in ("hasChanges", "changesCount") else (op.state() if r.rc == 0 else None)
    if after != ref:
        ctx.fail("poisoned:" + op.fn, f"{op.fn} does not work any more after failures of allocations: returned {r.rc}")


def lite_case(ctx, i):
    rng = ctx.rng
    ops = more_ops(ctx, scenario(ctx))
    k = i // 3
    picked = ops if vf.TIER == "thorough" else [ops[k % len(ops)], ops[(k * 5 + 3) % len(ops)]]
    for op in picked:
        ref = reference(ctx, op)
        if ref is not None:
            run_op(ctx, op, ref, 60 if vf.TIER == "quick" else 600)
    for fn in ("hasChanges", "changesCount"):
        op = Op(fn, [ctx.path("bm.diff")], [])
        run_op(ctx, op, ctx.call(fn, *op.args).rc, 10)
    # calls that fail anyhow, and calls with null arguments
    for fn, args in (("applyChangeset", [ctx.path("base.db"), ctx.path("none")]), ("createChangeset", [ctx.path("none.db"), ctx.path("base.db"), ctx.path("o")]), ("createChangeset", [None, None, None]),
                     ("rebase", [None] * 4), ("listChanges", [ctx.path("none"), ctx.path("o")]), ("invertChangeset", [ctx.path("base.db"), ctx.path("o")]), ("hasChanges", [None]), ("makeCopy", ["sqlite", "", ctx.path("none.db"), "sqlite", "", ctx.path("o")]),
                     ("dumpData", ["nope", "", ctx.path("base.db"), ctx.path("o")]), ("changesCount", [ctx.path("none")])):
        r = ctx.call(fn, *args)
        for k in range(min(r.vfs["new"], 12)):
            st = rng.choice("01")
            ctx.gd.cmd("new", str(k), st, "0")
            try:
                r = ctx.call(fn, *args)
            except vf.Died as e:
                raise vf.CheckFail("ended:" + fn, f"{fn} (failing call): the process ended (status {e.status}) with allocation {k} failing (sticky {st})", report=e.report[-4000:])
            ctx.gd.cmd("new", "-1", "0", "0")
            if r.rc == -77:
                ctx.fail("escaped:" + fn, f"{fn} (failing call): an exception left the C interface with allocation {k} failing (sticky {st})")
            if r.rc in (0,) and fn not in ("hasChanges", "changesCount"):
                ctx.fail("success:" + fn, f"{fn} succeeded")
    ctx.sample({"operations": [o.fn for o in picked]})


def failing_case(ctx, i):
    """calls that cannot succeed, while memory or file operations fail too: still an error, nothing changed, nothing leaked"""
    rng = ctx.rng
    P = ctx.path
    scenario(ctx)
    base, theirs, mine = P("base.db"), P("theirs.db"), P("mine.db")
    other, cut = P("other.db"), P("cut.diff")
    shutil.copyfile(base, other)
    c = dbgen.connect(other)
    c.execute("CREATE TABLE zz_other(a INTEGER PRIMARY KEY, b)")
    c.close()
    bt, bm = (open(P(x), "rb").read() for x in ("bt.diff", "bm.diff"))
    src = bm if len(bm) > 3 else bt
    if len(src) < 4:
        raise vf.Skip()
    with open(cut, "wb") as f:
        f.write(src[:rng.randrange(1, len(src))])
    with open(P("miss.diff"), "wb") as f:
        f.write(src + b"T\x02\x01\x00no such table\x00" + b"\x12\x00\x01" + (5).to_bytes(8, "big") + b"\x05")
    o, k, a = P("fail.out"), P("fail.json"), P("a.db")
    ops = [Op("applyChangeset", [a, P("bm.diff")], [], [(a, mine)]), Op("applyChangeset", [a, cut], [], [(a, base)]), Op("applyChangeset", [a, P("miss.diff")], [], [(a, base if src is bm else theirs)]),
           Op("rebase", [base, other, a, k], [k], [(a, mine)]), Op("rebaseEx", ["sqlite", "", base, a, cut, k], [k], [(a, mine)]), Op("createRebasedChangeset", [base, mine, cut, o, k], [o, k]),
           Op("createChangeset", [base, other, o], [o]), Op("invertChangeset", [cut, o], [o]), Op("listChanges", [cut, o], [o]), Op("dumpData", ["sqlite", None, cut, o], [o]),
           Op("makeCopy", ["sqlite", None, base, "sqlite", None, P("fail.db")], [P("fail.db")])]
    lim = 40 if vf.TIER == "quick" else 300
    for op in (ops if vf.TIER == "thorough" else ops[:3] + rng.sample(ops[3:], 3)):
        op.reset()
        r = ctx.call(op.fn, *op.args)
        if r.rc == 0:
            continue          # a changeset cut between two entries
        pristine = [dbgen.full_dump(d) for _, d in op.inplace]
        plan = []
        for kind, arm in (("n", "new"), ("m", "mem")):
            op.reset()
            ctx.gd.cmd(arm, "-1", "0", *(["0"] if arm == "new" else []))
            sites = ctx.gd.sites(kind, op.fn, *op.args)[1]
            late = range(max(0, len(sites) - lim // 2), len(sites))
            plan += [(arm, n, len(sites)) for n in sorted(set(vf.pick_sites(rng, sites, lim // 2)) | set(late))]
        op.reset()
        ctx.gd.vfs(vf.M_FAIL, 255, -1)
        total = sum(ctx.call(op.fn, *op.args).vfs["n"])
        plan += [("vfs", n, total) for n in sorted(rng.sample(range(total), min(total, lim // 3)))]
        before = obs(ctx)
        for arm, n, total in plan:
            op.reset()
            st = rng.choice("01")
            if arm == "vfs":
                ctx.gd.vfs(vf.M_FAIL, 255, n, int(st))
            else:
                ctx.gd.cmd(arm, str(n), st, *(["0"] if arm == "new" else []))
            what = f"{arm} {n} of {total} failing (sticky {st})"
            try:
                r = ctx.call(op.fn, *op.args)
            except vf.Died as e:
                raise vf.CheckFail("ended:" + op.fn, f"{op.fn} (failing call): the process ended (status {e.status}) with {what}", report=e.report[-4000:])
            ctx.gd.vfs()
            ctx.gd.cmd("new", "-1", "0", "0")
            ctx.gd.cmd("mem", "-1", "0")
            if r.rc == -77:
                ctx.fail("escaped:" + op.fn, f"{op.fn} (failing call): an exception left the C interface with {what}")
            if r.rc == 0:
                ctx.fail("success:" + op.fn, f"{op.fn}, which cannot succeed, did with {what}")
            for (d, _), was in zip(op.inplace, pristine):
                c = dbgen.connect(d)        # recovers it
                c.execute("SELECT count(*) FROM sqlite_master").fetchall()
                c.close()
                now = dbgen.full_dump(d)
                if now != was:
                    ctx.fail("partial:" + op.fn, f"{op.fn} failed with {what} and left changes in {[x for x in was if was[x] != now.get(x)][:3]}")
            now = obs(ctx)
            if now != before:
                ctx.fail("leak:" + op.fn, f"{op.fn} (failing call) with {what}: open descriptors, SQLite memory {before} before and {now} after")
            ctx.count("failing call with " + arm)
            ctx.sig("failing", arm, op.fn, n, total, st)


class PgOp(Op):
    """the server's file is put back before each call"""
    def __init__(self, ctx, db, *a):
        super().__init__(*a)
        self.ctx, self.db = ctx, db
        self.src = db.path + ".src"

    def reset(self, stale=None):
        super().reset(stale)
        shutil.copyfile(self.src, self.db.path)
        self.ctx.gd.cmd("pgreset")

    def state(self):
        return super().state() + [self.db.raw()]


def pg_case(ctx, i):
    rng = ctx.rng
    db, s1, s2, tables, r1, r2 = pg.gen_pair(rng, ctx, {"geom": True} if rng.random() < 0.5 else None)
    ctx.gd.cmd("pgreset")
    cs, o = ctx.path("cs"), ctx.path("o")
    ctx.ok("createChangesetEx", "postgres", db.info, s1, s2, cs)
    shutil.copyfile(db.path, db.path + ".src")
    ops = [PgOp(ctx, db, "createChangesetEx", ["postgres", db.info, s1, s2, o], [o]), PgOp(ctx, db, "applyChangesetEx", ["postgres", db.info, s1, cs], []), PgOp(ctx, db, "dumpData", ["postgres", db.info, s2, o], [o]),
           PgOp(ctx, db, "makeCopy", ["postgres", db.info, s1, "sqlite", "", ctx.path("c.gpkg")], [ctx.path("c.gpkg")]), PgOp(ctx, db, "rebaseEx", ["postgres", db.info, s1, s2, cs, o], [o])]
    for op in (ops if vf.TIER == "thorough" else [ops[(i // 3) % len(ops)]]):
        ref = reference(ctx, op)
        if ref is None:
            continue
        if op.fn == "makeCopy":      # the time of the copy
            continue
        before = db.raw()
        run_op(ctx, op, ref, 60 if vf.TIER == "quick" else 600)
        clean(ctx, op.fn)
        op.reset()
        ctx.gd.cmd("pgfault", -1, 0)
        ctx.call(op.fn, *op.args)
        n = clean(ctx, op.fn)["execs"]
        obs0 = obs(ctx)
        for k in rng.sample(range(n), min(n, 8)):
            op.reset()
            ctx.gd.cmd("pgfault", k, 4)
            r = ctx.call(op.fn, *op.args)
            ctx.gd.cmd("pgfault", -1, 0)
            judge_call(ctx, op, r, ref, f"memory for the result of statement {k} of {n} missing", False, obs0)
            clean(ctx, op.fn)
            ctx.sig("pgmem", op.fn, k, n, r.rc)


def any_case(ctx, i):
    if i % 8 == 7:
        return failing_case(ctx, i)
    return pg_case(ctx, i) if i % 3 == 2 else lite_case(ctx, i)


def main(only=None):
    c = vf.Check("C27", level="fault_enumeration", rule="each allocation (operator new, sampled above a limit) of a call fails, once or from then on, or all of at least some size: an error code and no exception out of the C interface, success only with the output of the undisturbed call, no open descriptors or connections left, the next call works. Non-trivial: distinct (operation, position, kind, result) in which an allocation failed",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp, libpq by /verif/native/pgemu.cpp (its own allocations do not fail)", "SQLite's allocator fails through its own configuration, libpq's by returning no result"])
    c.run_cases(any_case, only or range(320 if vf.TIER == "quick" else 1200), exe=build.newrun())
    return c.finish()
