import errno, os, shutil
import vf, dbgen, crafted, merge
from changeset import encode
from c02 import read

ALLW = vf.OP_WRITE | vf.OP_TRUNC | vf.OP_SYNC | vf.OP_DELETE | vf.OP_OPEN | vf.OP_LOCK


class Op:
    """one call: fn, arguments, outputs (files compared byte by byte), in-place databases (path, pristine copy)"""
    def __init__(self, fn, args, outs, inplace=(), optional=()):
        self.fn, self.args, self.outs, self.inplace, self.optional = fn, args, outs, list(inplace), set(optional)

    def reset(self, stale=None):
        for o in self.outs:
            for s in ("", "-journal", "-wal", "-shm"):
                if os.path.lexists(o + s):
                    if os.path.isdir(o + s) and not os.path.islink(o + s):
                        shutil.rmtree(o + s)
                    else:
                        os.unlink(o + s)
            if stale:
                with open(o, "wb") as f:
                    f.write(stale)
        for db, src in self.inplace:
            for s in ("-journal", "-wal", "-shm"):
                if os.path.exists(db + s):
                    os.unlink(db + s)
            shutil.copyfile(src, db)

    def state(self):
        st = []
        for o in self.outs:
            if not os.path.exists(o):
                st.append(None)
                continue
            b = read(o)
            st.append(dbgen.full_dump(o) if b.startswith(b"SQLite format 3") else b)
        for db, _ in self.inplace:
            try:
                st.append(dbgen.full_dump(db))
            except Exception as e:
                st.append("unreadable: %s" % e)
        return st


def scenario(ctx, big=False):
    rng = ctx.rng
    P = ctx.path
    base, theirs, mine, tables, gpkg = merge.gen_triple(rng, ctx)
    if big:
        for p in (theirs, mine):
            c = dbgen.connect(p)
            for t in tables[:1]:
                for k in range(200):
                    try:
                        r = dbgen.new_row(rng, t, (100, 5000))
                        for j in range(len(r)):
                            if isinstance(r[j], str) and j not in t.pk:
                                r[j] = "x" * 500
                        dbgen.insert(c, t, r)
                    except Exception:
                        pass
            c.close()
    bt = P("bt.diff")
    ctx.ok("createChangeset", base, theirs, bt)
    bm = P("bm.diff")
    ctx.ok("createChangeset", base, mine, bm)
    cr = P("cr.diff")
    with open(cr, "wb") as f:
        f.write(encode(crafted.entries(rng, 6)))
    o, k = P("out.bin"), P("conf.json")
    cs = rng.choice([bt, bm, cr])
    ops = [Op("createChangeset", [base, mine, o], [o]),
           Op("createChangesetEx", ["sqlite", None, base, theirs, o], [o]),
           Op("invertChangeset", [cs, o], [o]),
           Op("listChanges", [cs, o], [o]),
           Op("listChangesSummary", [cs, o], [o]),
           Op("dumpData", ["sqlite", None, mine, o], [o]),
           Op("createRebasedChangeset", [base, mine, bt, o, k], [o, k], optional=[1]),
           Op("createRebasedChangesetEx", ["sqlite", "", base, bm, bt, o, k], [o, k], optional=[1]),
           Op("rebase", [base, theirs, P("m.db"), k], [k], [(P("m.db"), mine)], optional=[0]),
           Op("rebaseEx", ["sqlite", "", base, P("m.db"), bt, k], [k], [(P("m.db"), mine)], optional=[0])]
    e = P("empty.db")
    c = dbgen.connect(e)
    c.execute("PRAGMA user_version=5")
    c.close()
    ops.append(Op("makeCopy", ["sqlite", None, e, "sqlite", None, P("copy.db")], [P("copy.db")]))
    return ops


def reference(ctx, op):
    op.reset()
    r = ctx.call(op.fn, *op.args)
    if r.rc != 0:
        return None
    return op.state()


def judge(ctx, op, r, ref, what):
    ctx.count("faulted_calls")
    if r.rc == 0:
        st = op.state()
        if st != ref:
            n = next(j for j in range(len(st)) if st[j] != ref[j])
            ctx.fail("success:" + op.fn, f"{op.fn} returned success with {what}, but output {n} is {str(st[n])[:120]} instead of {str(ref[n])[:120]}")
        ctx.count("success, complete")
    else:
        if not r.errors():
            ctx.fail("silent:" + op.fn, f"{op.fn} failed with {what} and logged no error")
        ctx.count("error reported")


def sizes(rng, n, limit):
    if n <= limit:
        return list(range(n + 2))
    s = set(range(min(n, limit // 3))) | {n - 1, n, n + 1} | set(range(max(0, n - limit // 3), n)) | {k + d for k in range(4096, n, 4096) for d in (-1, 0, 1)} | {8191 * j + d for j in range(1, n // 8191 + 1) for d in (-1, 0, 1)}
    s = sorted(x for x in s if x <= n + 1)
    if len(s) > limit:
        s = sorted(rng.sample(s, limit))
    return s


def filelimit(ctx, i):
    """no file may grow above n bytes: every n up to the size of the outputs"""
    rng = ctx.rng
    ops = scenario(ctx, big=rng.random() < 0.2)
    pick = ops if vf.TIER == "thorough" else [ops[i % len(ops)], ops[(i * 7 + 3) % len(ops)]]
    for op in pick:
        ref = reference(ctx, op)
        if ref is None:
            ctx.count("reference call failed")
            continue
        top = max([os.path.getsize(o) for o in op.outs if os.path.exists(o)] + [0])
        if op.inplace or op.fn in ("createRebasedChangeset", "makeCopy"):
            top = max(top, 3000)
        for n in sizes(rng, top, 60):
            op.reset(rng.choice([None, None, b"stale" * 40]) if op.fn != "makeCopy" else None)
            ctx.gd.cmd("fsize", str(n))
            r = ctx.call(op.fn, *op.args)
            ctx.gd.cmd("fsize", "-1")
            judge(ctx, op, r, ref, f"files limited to {n} bytes ({top} needed)")
            ctx.sig("fsize", op.fn, n, r.rc, [len(x) if isinstance(x, bytes) else x is None for x in ref])
    ctx.sample({"ops": [o.fn for o in pick]})


def paths(ctx, i):
    """outputs at paths where nothing can be written"""
    rng = ctx.rng
    ops = scenario(ctx)
    P = ctx.path
    os.makedirs(P("adir/sub"))
    os.makedirs(P("emptydir"))
    with open(P("afile"), "w") as f:
        f.write("x")
    os.symlink("/dev/full", P("full"))
    os.symlink(P("loop2"), P("loop1"))
    os.symlink(P("loop1"), P("loop2"))
    os.symlink(P("missing/target"), P("dangling"))
    keep = lambda: sorted((d, tuple(ns), tuple(fs)) for d, ns, fs in os.walk(P("adir"))) + [os.path.isdir(P("emptydir")), read(P("afile"))]
    before = keep()
    for op in ops:
        ref = reference(ctx, op)
        if ref is None:
            continue
        for n, out in enumerate(op.outs):
            for kind, bad in (("directory", P("adir")), ("empty directory", P("emptydir")), ("missing directory", P("missing/out")), ("below a file", P("afile/out")),
                              ("long name", P("n" * 300)), ("link loop", P("loop1")), ("dangling link", P("dangling")), ("full device", P("full")), ("empty path", ""), ("link to directory", None)):
                if bad is None:
                    bad = P("ld")
                    if not os.path.lexists(bad):
                        os.symlink(P("adir"), bad)
                if n in op.optional and ref[n] is None:
                    continue      # nothing to write there
                op.reset()
                args = [bad if a == out else a for a in op.args]
                o2 = Op(op.fn, args, [bad if x == out else x for x in op.outs], op.inplace, op.optional)
                r = ctx.call(op.fn, *args)
                if kind == "full device" and len(ref[n]) == 0:
                    r_ok = True          # nothing to write
                elif r.rc == 0 and bad and os.path.isfile(bad) and not os.path.islink(bad):
                    r_ok = o2.state() == ref      # a link was replaced by a file
                else:
                    r_ok = r.rc != 0
                if not r_ok:
                    ctx.fail("success:" + op.fn, f"{op.fn} returned success with output {n} at a {kind}")
                if r.rc != 0 and not r.errors():
                    ctx.fail("silent:" + op.fn, f"{op.fn} failed with output {n} at a {kind} and logged no error")
                if keep() != before:
                    ctx.fail("destroyed:" + op.fn, f"{op.fn} with output {n} at a {kind} removed or altered something else")
                for lnk, t in (("full", "/dev/full"), ("dangling", P("missing/target")), ("loop1", P("loop2")), ("ld", P("adir"))):
                    if not os.path.islink(P(lnk)) and (lnk != "ld" or os.path.lexists(P("ld")) or kind == "link to directory"):
                        if os.path.lexists(P(lnk)):
                            os.unlink(P(lnk))
                        os.symlink(t, P(lnk))
                ctx.count("path:" + kind)
                ctx.sig("path", op.fn, n, kind, r.rc)


def tmpdirs(ctx, i):
    """temporary files that cannot be written"""
    ops = scenario(ctx)
    P = ctx.path
    with open(P("afile"), "w") as f:
        f.write("x")
    for op in ops:
        ref = reference(ctx, op)
        if ref is None:
            continue
        for kind, d in (("missing", P("missing")), ("a file", P("afile")), ("long", P("n" * 300)), ("empty", ""), ("/dev/null", "/dev/null")):
            op.reset()
            ctx.gd.cmd("env", "TMPDIR", d)
            try:
                r = ctx.call(op.fn, *op.args)
            finally:
                ctx.gd.cmd("env", "TMPDIR", ctx.gd.tmp + "/")
            judge(ctx, op, r, ref, f"TMPDIR {kind}")
            ctx.sig("tmpdir", op.fn, kind, r.rc)


def vfswrite(ctx, i):
    """writes of the databases that an operation makes"""
    ops = [o for o in scenario(ctx) if o.inplace or o.fn == "makeCopy"]
    rng = ctx.rng
    for op in ops:
        ref = reference(ctx, op)
        if ref is None:
            continue
        op.reset()
        ctx.gd.vfs(vf.M_FAIL, ALLW, -1)
        r = ctx.call(op.fn, *op.args)
        total = ctx.gd.fork("changesCount", "x").vfs["seen"] if False else sum(r.vfs["n"][j] for j in (1, 2, 3, 4, 5, 7))
        for k in sorted(rng.sample(range(total), min(total, 12 if vf.TIER == "quick" else 200))):
            op.reset()
            ctx.gd.vfs(vf.M_FAIL, ALLW, k, int(rng.random() < 0.5), rng.choice([0, 13]))
            r = ctx.call(op.fn, *op.args)
            ctx.gd.vfs()
            judge(ctx, op, r, ref, f"database operation {k} of {total} failing")
            ctx.sig("vfs", op.fn, k, total, r.rc)


def any_case(ctx, i):
    return (filelimit, filelimit, filelimit, filelimit, filelimit, filelimit, paths, tmpdirs, vfswrite, filelimit)[i % 10](ctx, i)


def main(only=None):
    c = vf.Check("C13", level="fault_enumeration", rule="each writing operation with every file-size limit up to its output size (sampled above 60), outputs at unwritable paths and devices, unusable TMPDIR, failing database writes; success requires output equal to the undisturbed call. Non-trivial: distinct (operation, fault, result)",
                 assumptions=["RLIMIT_FSIZE stands for a device that fills up at that byte", "libgpkg is replaced by /verif/native/gpkg_shim.cpp", "permission errors are not produced: the checks run as root"])
    c.run_cases(any_case, only or range(400 if vf.TIER == "quick" else 3000))
    return c.finish()
