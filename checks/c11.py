import os, shutil
import vf, dbgen, crafted, jsonval
from changeset import decode, encode, enc_header, Entry, UNDEF, INSERT, UPDATE, DELETE
from c02 import read

NAMES = {INSERT: "insert", UPDATE: "update", DELETE: "delete"}


def check_listing(ctx, doc, es):
    if not isinstance(doc, dict) or set(doc) != {"geodiff"} or not isinstance(doc["geodiff"], list):
        ctx.fail("shape", f"top level is not an object with one list geodiff: {str(doc)[:200]}")
    got = doc["geodiff"]
    if len(got) != len(es):
        ctx.fail("entries", f"{len(got)} objects for {len(es)} entries")
    for n, (g, e) in enumerate(zip(got, es)):
        if set(g) != {"table", "type", "changes"}:
            ctx.fail("shape", f"object {n} has members {sorted(g)}")
        if g["type"] != NAMES[e.op]:
            ctx.fail("type", f"object {n} is {g['type']}, entry is {NAMES[e.op]}")
        if not jsonval.matches(g["table"], e.table):
            ctx.fail("table", f"object {n} has table {g['table']!r}, entry {e.table!r}")
        cols = [j for j in range(len(e.pk)) if (e.old and e.old[j] is not UNDEF) or (e.new and e.new[j] is not UNDEF)]
        if [c.get("column") for c in g["changes"]] != cols:
            ctx.fail("columns", f"object {n} lists columns {[c.get('column') for c in g['changes']][:40]}, recorded are {cols[:40]}")
        for c, j in zip(g["changes"], cols):
            if set(c) - {"column", "old", "new"}:
                ctx.fail("shape", f"column object has members {sorted(c)}")
            for side, row in (("old", e.old), ("new", e.new)):
                v = row[j] if row else UNDEF
                if not jsonval.matches(c.get(side, jsonval.MISSING), v):
                    ctx.fail("value:" + type(v).__name__, f"object {n} column {j} {side}: JSON {c.get(side, jsonval.MISSING)!r:.300}, recorded {v!r:.300}")
                if v is not UNDEF:
                    ctx.count("values:" + type(v).__name__)


def shape(e):
    t = lambda v: "u" if v is UNDEF else type(v).__name__[0]
    return (e.op, "".join(map(t, e.old or ())), "".join(map(t, e.new or ())))


def case(ctx, i):
    rng = ctx.rng
    cs, out = ctx.path("c.diff"), ctx.path("o.json")
    r = rng.random()
    if r < 0.6:
        es = crafted.entries(rng, rng.choice([1, 5, 12]))
        kind = "crafted"
        if rng.random() < 0.4:
            rng.shuffle(es)          # tables in several groups
            kind = "interleaved"
        data = encode(es)
        if rng.random() < 0.1:
            data += enc_header("empty", [1, 0])
            kind += "+header"
        with open(cs, "wb") as f:
            f.write(data)
    else:
        base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"edits": rng.choice([1, 4, 20])})
        ctx.ok("createChangeset", base, mod, cs)
        kind = "created"
        if rng.random() < 0.3:
            ctx.ok("invertChangeset", cs, ctx.path("i.diff"))
            cs = ctx.path("i.diff")
            kind = "inverted"
        elif rng.random() < 0.3:
            ctx.ok("dumpData", "sqlite", None, mod, ctx.path("d.diff"))
            cs = ctx.path("d.diff")
            kind = "dump"
        es = decode(read(cs))
    data = read(cs)
    stale = rng.random() < 0.4
    if stale:
        with open(out, "wb") as f:
            f.write(b"{ old content" * rng.choice([1, 10000]))
    ctx.ok("listChanges", cs, out)
    b = read(out)
    bad_text = any(isinstance(x, str) and jsonval.invalid(x) for e in es for x in [e.table, *(e.old or []), *(e.new or [])])
    if bad_text:
        ctx.count("not valid UTF-8")
        raise vf.Skip()
    try:
        doc = jsonval.load(b)
    except jsonval.Bad as e:
        ctx.fail("json", f"{e} ({kind})")
    check_listing(ctx, doc, es)
    if read(cs) != data:
        ctx.fail("input", "listChanges altered the changeset")
    ctx.count("entries", len(es))
    ctx.count("kind:" + kind)
    for e in es:
        ctx.sig(shape(e), e.table)
    if not es:
        ctx.sig("empty", kind, stale)
    ctx.sample({"kind": kind, "entries": len(es), "json": b[:150].decode("utf-8", "replace")})


SPECIAL = [0, 1, -1, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, -2**63, 0.0, -0.0, 0.1, 1e-7, 1.5e-7, 1e22, 123456789.123456789, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308,
           float("inf"), float("-inf"), 1 / 3, 2**53 + 2.0, 1e15 + 0.3, "", b"", b"\0", b"\xff", "\0", "a\0b", "\u007f", "\u0080", "\u2028\u2029", "\ud7ff\ue000\ufffd\uffff", "\U0010ffff\U0001f600", '"', "\\", "\\\"", "/", "</script>", "%s%d%n", "\b\f\n\r\t\v", "null", "\ufeff"]
SPECIAL += [chr(c) for c in range(1, 0xa0)] + ["\\u%04x" % c for c in (0, 10, 0xd800)] + [bytes([c]) * n for c in (0, 255, 77) for n in range(1, 8)] + [bytes(range(256))]


def boundary(ctx, i):
    """every value of a fixed list in every role, and every length modulo 3 of blobs"""
    es = []
    for n, v in enumerate(SPECIAL):
        es.append(Entry("t", [1, 0], INSERT, None, [n, v]))
        es.append(Entry("t", [1, 0], DELETE, [n, v], None))
        es.append(Entry("t", [1, 0], UPDATE, [n, v], [UNDEF, None]))
        es.append(Entry("t", [1, 0], UPDATE, [n, None], [UNDEF, v]))
        es.append(Entry("t", [1, 0], UPDATE, [v if v is not None else 0, 1], [n, 2]))     # a key changed
        if isinstance(v, str) and "\0" not in v and v:
            es.append(Entry(v, [1], INSERT, None, [n]))
    cs, out = ctx.path("c.diff"), ctx.path("o.json")
    with open(cs, "wb") as f:
        f.write(encode(es))
    ctx.ok("listChanges", cs, out)
    try:
        doc = jsonval.load(read(out))
    except jsonval.Bad as e:
        ctx.fail("json", str(e))
    check_listing(ctx, doc, es)
    ctx.sig("boundary")


def any_case(ctx, i):
    return boundary(ctx, i) if i == 0 else case(ctx, i)


def main(only=None):
    c = vf.Check("C11", rule="listings of crafted, created, inverted and dump changesets parsed by a strict JSON reader and compared value by value. Non-trivial: distinct (operation, value types per column, table name) entries listed",
                 assumptions=["text and names that are not valid UTF-8 are left out: JSON cannot carry them", "NaN appears as null, infinity as a number out of range", "floating point numbers are read back with correct rounding"])
    c.run_cases(any_case, only or range(1500 if vf.TIER == "quick" else 30000))
    return c.finish()
