import os, shutil, struct
import vf, dbgen, crafted, jsonval
from changeset import decode, encode, enc_varint, enc_header, enc_value, enc_entry, Entry, FormatError, UNDEF, INSERT, UPDATE, DELETE
from c02 import read

BADLEN = [0, 1, 2, 127, 128, 16383, 16384, 2**21, 2**28 - 1, 2**28, 2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 3, 2**35, 2**56, 2**63, 2**64 - 1]


def varint_long(rng, n):
    """n with needless leading bytes"""
    b = enc_varint(n)
    return b if len(b) >= 8 else bytes([0x80]) * rng.randint(1, 8 - len(b)) + b


def structure(rng, es):
    """encode with one thing wrong in the structure"""
    out, cur = [], None
    for e in es:
        if (e.table, e.pk) != cur:
            out.append(("h", e.table, e.pk))
            cur = (e.table, e.pk)
        out.append(("e", e))
    if not out:
        return b"T", "empty"
    what = rng.choice(["ncols", "ncols0", "noterm", "nohdr", "rehdr", "rehdr2", "valtype", "len", "longvarint", "op", "undef", "pkflags", "name", "shortrow", "longrow", "emptyname", "biglen"])
    i = rng.randrange(len(out))
    b = b""
    for n, o in enumerate(out):
        hit = n == i
        if o[0] == "h":
            if what == "nohdr" and n == 0:
                continue
            ncol = enc_varint(len(o[2]))
            pk = bytes(o[2])
            name = o[1].encode("utf-8", "surrogateescape") + b"\0"
            if what == "ncols" and n == 0:
                ncol = enc_varint(rng.choice(BADLEN + [len(pk) - 1, len(pk) + 1]))
            if what == "ncols0" and n == 0:
                ncol, pk = b"\0", b""
            if what == "noterm" and n == max(j for j, x in enumerate(out) if x[0] == "h"):
                name = name[:-1]
            if what == "pkflags" and n == 0:
                pk = bytes(rng.choice([0, 1, 2, 255]) for _ in pk)
            if what == "name" and n == 0:
                name = rng.choice([b"sqlite_master", b"sqlite_sequence", b"gpkg_contents", b"\xff\xfe", b"x" * 100000, b"main.t", b"a\"b", b"rtree_x", b"pragma_table_info", b"temp.t"]) + b"\0"
            if what == "emptyname" and n == 0:
                name = b"\0"
            if what == "longvarint":
                ncol = varint_long(rng, len(o[2]))
            b += b"T" + ncol + pk + name
        else:
            e = o[1]
            eb = bytearray(enc_entry(e))
            if hit and what == "rehdr":      # the table again, with another number of columns, in front of an entry
                k = rng.choice([1, max(1, len(e.pk) - 1), len(e.pk) + 1, len(e.pk) + 200])
                b += enc_header(e.table, [1] + [0] * (k - 1))
            if hit and what == "rehdr2":
                pk = list(e.pk)
                rng.shuffle(pk)
                b += enc_header(e.table, pk)
            if hit and what == "op":
                eb[0] = rng.choice([0, 1, 0x54, 0x12, 0x17, 9, 0x50, 255])
            if hit and what == "valtype" and len(eb) > 2:
                eb[2] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 0x7f, 0xff])
            if hit and what == "undef":
                e2 = Entry(e.table, e.pk, e.op, e.old and [rng.choice([v, UNDEF, None]) for v in e.old], e.new and [rng.choice([v, UNDEF, None]) for v in e.new])
                eb = bytearray(enc_entry(e2))
            if hit and what in ("shortrow", "longrow"):
                f = (lambda r: r and (r[:-1] if what == "shortrow" else r + [1]))
                eb = bytearray(enc_entry(Entry(e.table, e.pk, e.op, f(e.old and list(e.old)), f(e.new and list(e.new)))))
            if hit and what in ("len", "biglen"):
                row = [v for v in (e.new or e.old)]
                eb = bytearray([e.op, 0])
                rows = ([e.old] if e.old else []) + ([e.new] if e.new else [])
                for r in rows:
                    for v in r:
                        if isinstance(v, (str, bytes)) and rng.random() < 0.7:
                            raw = v.encode("utf-8", "surrogateescape") if isinstance(v, str) else v
                            n_ = rng.choice(BADLEN + [len(raw) + 1, max(0, len(raw) - 1)]) if what == "len" else rng.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32 + len(raw), 2**63 + len(raw)])
                            eb += bytes([3 if isinstance(v, str) else 4]) + enc_varint(n_) + raw
                        else:
                            eb += enc_value(v)
            b += bytes(eb)
    return b, what


def mutate(rng, good, es):
    r = rng.random()
    if r < 0.45:
        return structure(rng, es)
    if r < 0.6:
        return good[:rng.randrange(len(good) + 1)], "truncate"
    b = bytearray(good)
    if not b or r < 0.65:
        return rng.randbytes(rng.randint(1, 60)) if rng.random() < 0.5 else b"T" + bytes([rng.randint(0, 5)]) + rng.randbytes(rng.randint(0, 60)), "random"
    if r < 0.85:
        for _ in range(rng.choice([1, 1, 2, 5])):
            b[rng.randrange(len(b))] = rng.choice([0, 1, 3, 4, 5, 9, 0x12, 0x17, 0x54, 0x7f, 0x80, 0xff, rng.randrange(256)])
        return bytes(b), "bytes"
    if r < 0.93:
        i = rng.randrange(len(b) + 1)
        if rng.random() < 0.5:
            b[i:i] = rng.randbytes(rng.randint(1, 9))
        else:
            del b[i:i + rng.randint(1, 9)]
        return bytes(b), "shift"
    i = rng.randrange(len(b) + 1)
    j = rng.randrange(len(b) + 1)
    return bytes(b[:i] + b[j:]), "splice"


def feed(ctx, data, label, db, dbbytes, dbdump, other):
    """give one file to every consumer"""
    cs, out = ctx.path("h.diff"), ctx.path("h.out")
    with open(cs, "wb") as f:
        f.write(data)
    try:
        es = decode(data)
        good = True
    except FormatError as e:
        es, good, why = None, False, str(e)
    got = {}
    got["changesCount"] = ctx.call("changesCount", cs).rc
    h = ctx.call("hasChanges", cs).rc
    if h not in (-1, 0, 1):
        ctx.fail("haschanges", f"{label}: hasChanges returned {h}")
    for fn in ("listChanges", "listChangesSummary", "invertChangeset"):
        if os.path.exists(out):
            os.unlink(out)
        r = ctx.call(fn, cs, out)
        got[fn] = r.rc
        if r.rc == 0 and fn != "invertChangeset" and good and not any(isinstance(x, str) and jsonval.invalid(x) for e in es for x in [e.table, *(e.old or []), *(e.new or [])]):
            try:
                jsonval.load(read(out))
            except jsonval.Bad as e:
                ctx.fail("json", f"{label}: {fn} succeeded with {e}")
    reb, conf = ctx.path("h.reb"), ctx.path("h.conf")
    # with an empty counterpart there is nothing to rebase and the file is passed on unread: not asked here
    got["rebase-theirs"] = ctx.call("createRebasedChangesetEx", "sqlite", "", db, other, cs, reb, conf).rc
    got["rebase-mine"] = ctx.call("createRebasedChangesetEx", "sqlite", "", db, cs, other, reb, conf).rc
    for fn, args in (("applyChangeset", (db, cs)), ("rebaseEx", None)):
        if fn == "rebaseEx":
            if ctx.rng.random() < 0.7:
                continue
            mine = ctx.path("h.mine.db")
            shutil.copyfile(ctx.path("mod.db"), mine)
            md = dbgen.full_dump(mine)
            r = ctx.call("rebaseEx", "sqlite", "", ctx.path("base.db"), mine, cs, conf)
            got[fn] = r.rc
            if r.rc != 0 and dbgen.full_dump(mine) != md:
                ctx.fail("modified", f"{label}: rebaseEx failed and changed the database")
            if dbgen.integrity(mine) != [("ok",)]:
                ctx.fail("integrity", f"{label}: rebaseEx broke the database")
            continue
        r = ctx.call(fn, *args)
        got[fn] = r.rc
        if read(db) != dbbytes:
            if r.rc != 0 and dbgen.full_dump(db) != dbdump:
                ctx.fail("modified", f"{label}: apply failed and changed the database")
            if dbgen.integrity(db) != [("ok",)]:
                ctx.fail("integrity", f"{label}: apply broke the database")
            if dbgen.full_dump(db)["#schema"] != dbdump["#schema"]:
                ctx.fail("schema", f"{label}: apply changed the schema")
            with open(db, "wb") as f:
                f.write(dbbytes)
            for s in ("-journal", "-wal", "-shm"):
                if os.path.exists(db + s):
                    os.unlink(db + s)
    bad = [f for f, rc in got.items() if rc == 0 and f != "changesCount"] + (["changesCount"] if got["changesCount"] >= 0 else [])
    if os.path.getsize(other) == 0:
        bad = [f for f in bad if f not in ("rebase-theirs", "rebase-mine")]
    if not good:
        # everything that reads the entries has to refuse
        if bad:
            ctx.fail("accepted:" + bad[0], f"{label}: {bad} accepted a file that is not well formed ({why}): {data[:80]!r}")
        ctx.count("malformed")
    else:
        ctx.count("decodable")
        if got["changesCount"] >= 0 and got["changesCount"] != len(es):
            ctx.fail("count", f"{label}: changesCount {got['changesCount']}, {len(es)} entries")
        got["changesCount"] = 0 if got["changesCount"] >= 0 else -1
    ctx.sig(good, tuple(sorted(got.items())), label, None if good else why, len(data) if len(data) < 200 else len(data) // 100)


def case(ctx, i):
    rng = ctx.rng
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"edits": rng.choice([1, 4]), "rows": 6})
    cs, rev, db = ctx.path("cs.diff"), ctx.path("rev.diff"), ctx.path("t.db")
    ctx.ok("createChangeset", base, mod, cs)
    good = read(cs)
    if len(good) > 20000:
        raise vf.Skip()
    es = decode(good)
    shutil.copyfile(base, db)
    if rng.random() < 0.2:
        es = crafted.entries(rng, 5)
        if len(encode(es)) < 30000:
            good = encode(es)
        else:
            es = decode(good)
    b, d = read(db), dbgen.full_dump(db)
    if i % 10 == 0:
        # every truncation of a short changeset
        for n in range(min(len(good), 220)):
            feed(ctx, good[:n], "truncate", db, b, d, cs)
        return
    for _ in range(25):
        data, what = mutate(rng, good, es)
        if rng.random() < 0.1:
            data2, w2 = mutate(rng, data, es)
            data, what = data2, what + "+" + w2 if "+" not in what else what
        feed(ctx, data, what, db, b, d, cs)
        ctx.count("mutation:" + what.split("+")[0])
    ctx.sample({"last": data[:60].hex(), "kind": what})


def special(ctx, i):
    """not a regular changeset file at all"""
    base, mod = ctx.path("base.db"), ctx.path("mod.db")
    c = dbgen.connect(base)
    c.execute("CREATE TABLE t (fid INTEGER PRIMARY KEY, v TEXT)")
    c.execute("INSERT INTO t VALUES (1,'a')")
    c.close()
    shutil.copyfile(base, mod)
    cs = ctx.path("cs.diff")
    c = dbgen.connect(mod)
    c.execute("INSERT INTO t VALUES (2,'a')")
    c.close()
    ctx.ok("createChangeset", base, mod, cs)
    b, d = read(base), dbgen.full_dump(base)
    feed(ctx, read(base), "database as changeset", base, b, d, cs)
    feed(ctx, b"\0" * 100, "zeros", base, b, d, cs)
    feed(ctx, b"T" * 3000, "T", base, b, d, cs)
    feed(ctx, b"T\x01\x01t\0" * 20000, "headers only", base, b, d, cs)
    feed(ctx, b"T\x01\x01t\0" * 20000 + b"\x12", "headers and a cut entry", base, b, d, cs)
    feed(ctx, b"T\x02\x01\0t\0" + b"\x12\0\5\5" * 300, "null keys", base, b, d, cs)
    # larger than 2 and 4 GB (sparse): the file may be refused, or read as what it is (malformed)
    for size in (2**31 - 1, 2**31 + 10, 2**32 + len(read(cs)), 2**32 + 5):
        big = ctx.path("big.diff")
        shutil.copyfile(cs, big)
        os.truncate(big, size)
        for fn, args in (("changesCount", (big,)), ("listChanges", (big, ctx.path("o.json"))), ("invertChangeset", (big, ctx.path("o.diff"))), ("applyChangeset", (base, big))):
            if size == 2**31 - 1 and fn != "changesCount":
                continue
            r = ctx.call(fn, *args)
            if r.rc >= 0 and (fn == "changesCount" or r.rc == 0):
                ctx.fail("accepted:" + fn, f"{fn} accepted a sparse file of {size} bytes with zeros after the changeset")
        if dbgen.full_dump(base) != d:
            ctx.fail("modified", "apply of an oversized file changed the database")
        os.unlink(big)
    # a directory
    dr = ctx.path("dir")
    os.mkdir(dr)
    for fn, args in (("changesCount", (dr,)), ("listChanges", (dr, ctx.path("o.json"))), ("listChangesSummary", (dr, ctx.path("o.json"))), ("invertChangeset", (dr, ctx.path("o.diff"))), ("applyChangeset", (base, dr))):
        r = ctx.call(fn, *args)
        if r.rc >= 0 and (fn == "changesCount" or r.rc == 0):
            ctx.fail("accepted:" + fn, f"{fn} accepted a directory as changeset")
    ctx.sig("special")


def any_case(ctx, i):
    return special(ctx, i) if i == 0 else case(ctx, i)


def main(only=None):
    c = vf.Check("C10", rule="mutated and crafted files given to every consumer under ASan and UBSan, acceptance compared with an independent strict decoder. Non-trivial: distinct (decodable, results of all consumers, kind of mutation, reason, size)",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "clang's AddressSanitizer and UndefinedBehaviorSanitizer; SQLite itself is not instrumented, its heap blocks are"])
    n = 400 if vf.TIER == "quick" else 6000
    c.run_cases(any_case, only or range(n))
    return c.finish()
