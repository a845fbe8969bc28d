import os, random, shutil, sqlite3, subprocess, sys
import vf, dbgen, crafted, merge
from changeset import encode, decode, FormatError
from c02 import read
from c13 import Op, reference, judge, scenario

RD = vf.OP_READ | vf.OP_OPEN | vf.OP_SIZE | vf.OP_LOCK
IDX = {vf.OP_READ: 0, vf.OP_OPEN: 5, vf.OP_SIZE: 6, vf.OP_LOCK: 7}


def more_ops(ctx, ops):
    """apply as well: its target is read too"""
    P = ctx.path
    ops = [o for o in ops if o.fn not in ("listChangesSummary",)]
    ops.append(Op("applyChangeset", [P("a.db"), P("bm.diff")], [], [(P("a.db"), P("base.db"))]))
    ops.append(Op("dumpData", ["sqlite", None, P("base.db"), P("out.bin")], [P("out.bin")]))
    return ops


def pick(ctx, i, ops, n=3):
    return ops if vf.TIER == "thorough" else [ops[(i // 8 * n + i % 8 + k) % len(ops)] for k in range(n)]


def reads(ctx, i):
    """every read-side file operation of SQLite fails, once or from then on"""
    rng = ctx.rng
    for op in pick(ctx, i, [o for o in more_ops(ctx, scenario(ctx)) if o.fn not in ("invertChangeset", "listChanges", "createRebasedChangesetEx")]):
        ref = reference(ctx, op)
        if ref is None:
            continue
        op.reset()
        ctx.gd.vfs(vf.M_FAIL, RD, -1)
        r, sites = ctx.gd.sites("v", op.fn, *op.args)
        total = len(sites)
        ks = vf.pick_sites(rng, sites, 40 if vf.TIER == "quick" else 400)
        for k in ks:
            op.reset()
            sticky = int(rng.random() < 0.3)
            code = rng.choice([0, 0, 0, 10, 11, 7, 266, 5, 14])
            ctx.gd.vfs(vf.M_FAIL, RD, k, sticky, code)
            r = ctx.call(op.fn, *op.args)
            ctx.gd.vfs()
            judge(ctx, op, r, ref, f"read operation {k} of {total} failing (code {code}, sticky {sticky})")
            if r.vfs.get("fired"):
                ctx.count("fired")
                ctx.sig("read", op.fn, k, total, sticky, code, r.rc)
    ctx.sample({"kind": "reads"})


def memory(ctx, i):
    """SQLite's memory allocations fail"""
    rng = ctx.rng
    for op in pick(ctx, i, more_ops(ctx, scenario(ctx)), 2):
        ref = reference(ctx, op)
        if ref is None:
            continue
        op.reset()
        ctx.gd.cmd("mem", "-1", "0")
        r, sites = ctx.gd.sites("m", op.fn, *op.args)
        total = len(sites)
        ks = vf.pick_sites(rng, sites, 140 if vf.TIER == "quick" else 2000)
        ctx.count("places", len(set(sites)))
        for k in ks:
            op.reset()
            ctx.gd.cmd("mem", str(k), "1" if rng.random() < 0.3 else "0")
            r = ctx.call(op.fn, *op.args)
            ctx.gd.cmd("mem", "-1", "0")
            judge(ctx, op, r, ref, f"allocation {k} of {total} failing")
            if r.vfs["memfired"]:
                ctx.sig("mem", op.fn, k, total, r.rc)


def files(ctx, i):
    """reading a changeset file gives less than there is"""
    for op in more_ops(ctx, scenario(ctx)):
        ref = reference(ctx, op)
        if ref is None:
            continue
        op.reset()
        ctx.gd.cmd("fread", "-1")
        total = ctx.call(op.fn, *op.args).vfs["fread"]
        for k in range(min(total, 40)):
            op.reset()
            ctx.gd.cmd("fread", str(k))
            r = ctx.call(op.fn, *op.args)
            ctx.gd.cmd("fread", "-1")
            judge(ctx, op, r, ref, f"file read {k} of {total} coming up short")
            ctx.sig("fread", op.fn, k, total, r.rc)
    for fn in ("changesCount", "hasChanges"):
        ctx.gd.cmd("fread", "0")
        r = ctx.call(fn, ctx.path("bm.diff"))
        ctx.gd.cmd("fread", "-1")
        if os.path.getsize(ctx.path("bm.diff")) and r.vfs["fread"] and r.rc != -1:
            ctx.fail("success:" + fn, f"{fn} returned {r.rc} though reading the file came up short")


def readable(path):
    """(every row that matters can be read, the file is consistent)"""
    try:
        c = dbgen.connect(f"file:{dbgen._uri(path)}?mode=ro", uri=True)
    except sqlite3.Error:
        return False, False
    try:
        for t in dbgen.tables_of(c):
            cols, pk = dbgen.pkcols(c, t)
            if any(pk):
                w = " AND ".join(f"{dbgen.q(n)} IS NOT NULL" for n, p in zip(cols, pk) if p)
                sel = ",".join(map(dbgen.q, cols))
                try:
                    c.execute(f"SELECT {sel} FROM {dbgen.q(t)} NOT INDEXED WHERE {w}").fetchall()
                except sqlite3.DatabaseError:
                    try:      # an index may hold all columns
                        c.execute(f"SELECT {sel} FROM {dbgen.q(t)} WHERE {w}").fetchall()
                    except sqlite3.DatabaseError:      # the damaged cell may be one of two of the same key, of which a search finds the other
                        kn = [dbgen.q(n) for n, p in zip(cols, pk) if p]
                        for k in c.execute(f"SELECT {','.join(kn)} FROM {dbgen.q(t)} WHERE {w}").fetchall():
                            c.execute(f"SELECT {sel} FROM {dbgen.q(t)} WHERE " + " AND ".join(n + " = ?" for n in kn), k).fetchall()
        try:
            return True, c.execute("PRAGMA integrity_check").fetchall() == [("ok",)]
        except sqlite3.DatabaseError:
            return True, False
    except sqlite3.DatabaseError:
        return False, False
    except (ValueError, OverflowError, MemoryError):      # a damaged schema that Python can't express: not judged
        return True, False
    finally:
        c.close()


def corrupt(ctx, i):
    """damaged pages in one of the databases"""
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"rows": rng.choice([8, 30, 60]), "edits": rng.choice([1, 8])})
    o = ctx.path("out.diff")
    for rep in range(12):
        a, b = ctx.path("a.db"), ctx.path("b.db")
        shutil.copyfile(base, a)
        shutil.copyfile(mod, b)
        victim = rng.choice([a, b])
        data = bytearray(read(victim))
        ps = int.from_bytes(data[16:18], "big")
        ps = 65536 if ps == 1 else ps
        n = len(data) // ps
        p = rng.randrange(n)
        how = rng.choice(["zero", "random", "type", "cells", "bytes", "bytes", "bytes", "truncate", "freelist"])
        off = p * ps + (100 if p == 0 else 0)
        if how == "zero":
            data[off:(p + 1) * ps] = bytes((p + 1) * ps - off)
        elif how == "random":
            data[off:(p + 1) * ps] = rng.randbytes((p + 1) * ps - off)
        elif how == "type":
            data[off] = rng.choice([0, 2, 5, 10, 13, 255])
        elif how == "cells":
            k = off + rng.choice([3, 4, 5, 6, 8, 9, 10, 11])
            data[k] = rng.randrange(256)
        elif how == "bytes":
            for _ in range(rng.choice([1, 3, 10])):
                data[rng.randrange(off, (p + 1) * ps)] = rng.randrange(256)
        elif how == "truncate":
            data = data[:rng.randrange(len(data))]
        else:
            data[rng.randrange(24, 100)] = rng.randrange(256)
        with open(victim, "wb") as f:
            f.write(data)
        ra, ga = readable(a)
        rb, gb = readable(b)
        r = ctx.call("createChangeset", a, b, o)
        what = f"{how} page {p} of {n} of {'base' if victim == a else 'modified'}"
        if r.rc == 0 and not (ra and rb):
            ctx.fail("corrupt-accepted", f"{what}: rows can't be read, createChangeset succeeded")
        if r.rc == 0 and ga and gb:
            try:
                x, y = dbgen.dump(a), dbgen.dump(b)
                got = dbgen.entries_set(decode(read(o)))
                want = dbgen.ref_diff(x, y)
            except Exception:
                x = None
            if x is not None and (len(got) != len(want) or set(got) != want):
                ctx.fail("corrupt-wrong", f"{what}: both files consistent but the changeset is not their difference: {str(set(got) ^ want)[:300]}")
        if r.rc != 0 and not r.errors():
            ctx.fail("silent:createChangeset", f"{what}: failed and logged no error")
        d = ctx.call("dumpData", "sqlite", None, victim, o)
        if d.rc == 0 and not (ra if victim == a else rb):
            ctx.fail("corrupt-accepted", f"{what}: rows can't be read, dumpData succeeded")
        ctx.count(f"corrupt:{'unreadable' if not (ra and rb) else 'consistent' if ga and gb else 'inconsistent'}:{'error' if r.rc else 'success'}")
        ctx.sig("corrupt", how, p, n, victim == a, ra and rb, ga and gb, r.rc, d.rc)


def locks(ctx, i):
    """another process holds a lock, or writes, while the operation reads"""
    rng = ctx.rng
    ops = more_ops(ctx, scenario(ctx))
    P = ctx.path
    for op in pick(ctx, i, ops, 5):
        ref = reference(ctx, op)
        if ref is None:
            continue
        op.reset()
        dbs = [a for a in op.args if a and a.endswith(".db") and os.path.exists(a) and a not in op.outs]
        if not dbs:
            continue
        for db in dbs:
            op.reset()
            c = dbgen.connect(db, timeout=0.1)
            mode = rng.choice(["EXCLUSIVE", "EXCLUSIVE", "IMMEDIATE"])
            c.execute(f"BEGIN {mode}")
            try:
                c.execute("CREATE TABLE verif_lock (a)")
                r = ctx.call(op.fn, *op.args)
                c.execute("ROLLBACK")
            finally:
                c.close()
            judge(ctx, op, r, ref, f"{os.path.basename(db)} locked by {mode}")
            ctx.count(f"lock:{mode}:{'error' if r.rc else 'success'}")
            ctx.sig("lock", op.fn, os.path.basename(db), mode, r.rc)


def any_case(ctx, i):
    return (reads, memory, corrupt, reads, files, corrupt, locks, reads)[i % 8](ctx, i)


def main(only=None):
    c = vf.Check("C14", level="fault_enumeration", rule="each read-side file operation, each SQLite allocation and each changeset read (sampled above a limit) failing once or permanently, damaged pages, and locks; success requires output equal to the undisturbed call. Non-trivial: distinct (operation, fault, position, result)",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "for damaged pages SQLite itself (another connection, full scan, integrity_check) says whether rows can be read and the file is consistent"])
    c.run_cases(any_case, only or range(480 if vf.TIER == "quick" else 2400))
    return c.finish()
