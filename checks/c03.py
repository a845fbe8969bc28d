import collections, shutil
import vf, dbgen, crafted
from changeset import decode, encode, conformance, FormatError, Entry, UNDEF, INSERT, UPDATE, DELETE, crow, canon
from c02 import read, check_entries


def reverse(e):
    """the change that undoes e (format documentation)"""
    if e.op == INSERT:
        return Entry(e.table, e.pk, DELETE, e.new, None, e.indirect)
    if e.op == DELETE:
        return Entry(e.table, e.pk, INSERT, None, e.old, e.indirect)
    return Entry(e.table, e.pk, UPDATE, [o if p and n is UNDEF else n for o, n, p in zip(e.old, e.new, e.pk)], [UNDEF if p and n is UNDEF else o for o, n, p in zip(e.old, e.new, e.pk)], e.indirect)


def form(es):
    return collections.Counter((e.table, e.pk, e.op, crow(e.old), crow(e.new)) for e in es)


def dec(ctx, p, what):
    try:
        return decode(read(p))
    except FormatError as e:
        ctx.fail("undecodable", f"{what}: {e}")


def check_inverse(ctx, es, cs, what):
    inv, inv2 = ctx.path("inv.diff"), ctx.path("inv2.diff")
    if ctx.rng.random() < 0.3:
        open(inv, "wb").write(b"old content" * 1000)
    before = read(cs)
    ctx.ok("invertChangeset", cs, inv)
    got = dec(ctx, inv, f"inverse of {what}")
    if form(got) != form([reverse(e) for e in es]):
        m, x = form([reverse(e) for e in es]) - form(got), form(got) - form([reverse(e) for e in es])
        ctx.fail("inverse-entries", f"inverse of {what}: missing {list(m)[:2]}, unexpected {list(x)[:2]}")
    bad = conformance(read(inv))[1]
    if bad and not conformance(before)[1]:
        ctx.fail("inverse-format", f"inverse of {what}: {bad[:3]}")
    ctx.ok("invertChangeset", inv, inv2)
    if form(dec(ctx, inv2, "double inverse")) != form(es):
        ctx.fail("double-inverse", f"inverting {what} twice gives other entries")
    if read(cs) != before:
        ctx.fail("input-altered", "invertChangeset altered its input")
    return inv, inv2


def case(ctx, i):
    rng = ctx.rng
    cs = ctx.path("cs.diff")
    if i % 4 == 3:        # any well-formed changeset, no database
        es = crafted.entries(rng)
        open(cs, "wb").write(encode(es))
        check_inverse(ctx, es, cs, "a crafted changeset")
        for e in es:
            ctx.count("crafted:%d" % e.op)
        if es:
            ctx.sig(sorted(map(repr, form(es))))
        return
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"wide": True, "gpkg": False, "pk": "text", "collpk": True} if i % 11 == 5 else {"wide": True})
    a, b = dbgen.dump(base), dbgen.dump(mod)
    ctx.ok("createChangeset", base, mod, cs)
    es = dec(ctx, cs, "changeset")
    inv, inv2 = check_inverse(ctx, es, cs, "the changeset")
    # independent of createChangeset: the reverse of the reference diff
    if not any(t.collpk for t in tables):
        check_entries(ctx, read(inv), b, a, "inverse against the reverse difference")
    out = ctx.path("out.db")
    shutil.copyfile(mod, out)
    ctx.ok("applyChangeset", out, inv)
    d = dbgen.dump(out)
    if dbgen.norm(d) != dbgen.norm(a):
        ctx.fail("not-restored", "modified + inverse is not base: " + dbgen.diffdesc(d, a))
    ctx.ok("applyChangeset", out, inv2)
    d = dbgen.dump(out)
    if dbgen.norm(d) != dbgen.norm(b):
        ctx.fail("not-redone", "base + double inverse is not modified: " + dbgen.diffdesc(d, b))
    # undo the middle of a history: base -> mod (cs), then back and forth once more with the original
    ctx.ok("applyChangeset", out, inv)
    ctx.ok("applyChangeset", out, cs)
    d = dbgen.dump(out)
    if dbgen.norm(d) != dbgen.norm(b):
        ctx.fail("not-redone", "undo and redo is not modified: " + dbgen.diffdesc(d, b))
    for e in es:
        ctx.count("entry:%d" % e.op)
    if es:
        ctx.sig(sorted(map(repr, form(es))))
    ctx.sample({"tables": [t.ddl() for t in tables], "edits": ed})


def main(only=None):
    c = vf.Check("C03", rule="random pairs and crafted changesets; inverted once and twice, applied back and forth. Non-trivial: the changeset has entries (counted by set of entries)",
                 assumptions=["libgpkg is replaced by /verif/native/gpkg_shim.cpp", "updates do not change keys"])
    n = 2500 if vf.TIER == "quick" else 20000
    c.run_cases(case, only or range(n))
    return c.finish()
