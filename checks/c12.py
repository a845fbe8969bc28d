import os, shutil
import vf, dbgen, crafted, jsonval
from changeset import decode, encode, enc_header, enc_entry, Entry, UNDEF, INSERT, UPDATE, DELETE
from c02 import read
import merge

KIND = {INSERT: "insert", UPDATE: "update", DELETE: "delete"}


def judge(ctx, cs, es, kind, has=True):
    out = ctx.path("s.json")
    want = {}
    for e in es:
        w = want.setdefault(e.table, {"insert": 0, "update": 0, "delete": 0})
        w[KIND[e.op]] += 1
    if ctx.rng.random() < 0.3:
        with open(out, "wb") as f:
            f.write(b"stale" * 1000)
    data = read(cs)
    r = ctx.call("changesCount", cs)
    if r.rc != len(es):
        ctx.fail("count", f"changesCount {r.rc}, {len(es)} entries ({kind})")
    if has:
        r = ctx.call("hasChanges", cs)
        if r.rc != (1 if es else 0):
            ctx.fail("has", f"hasChanges {r.rc}, {len(es)} entries ({kind})")
    ctx.ok("listChangesSummary", cs, out)
    if read(cs) != data:
        ctx.fail("input", "the changeset was altered")
    if any(jsonval.invalid(t) for t in want):
        return
    try:
        doc = jsonval.load(read(out))
    except jsonval.Bad as e:
        ctx.fail("json", str(e))
    if not isinstance(doc, dict) or set(doc) != {"geodiff_summary"} or not isinstance(doc["geodiff_summary"], list):
        ctx.fail("shape", str(doc)[:200])
    got = {}
    for t in doc["geodiff_summary"]:
        if set(t) != {"table", "insert", "update", "delete"}:
            ctx.fail("shape", f"members {sorted(t)}")
        if t["table"] in got:
            ctx.fail("twice", f"table {t['table']!r} listed twice ({kind})")
        got[t["table"]] = {k: t[k] for k in ("insert", "update", "delete")}
    if got != want or any(type(n) is not int for t in got.values() for n in t.values()):
        d = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        ctx.fail("summary", f"summary and entries differ (got, expected): {str(d)[:400]} ({kind})")
    ctx.count("tables", len(want))
    ctx.count("entries", len(es))
    ctx.count("kind:" + kind)
    ctx.sig(kind, tuple(sorted((t, tuple(w.values())) for t, w in want.items())))
    ctx.sample({"kind": kind, "summary": got})


def case(ctx, i):
    rng = ctx.rng
    cs = ctx.path("c.diff")
    r = rng.random()
    if r < 0.5:
        es = crafted.entries(rng, rng.choice([1, 3, 12, 60]), groups=rng.choice([0, 1, 2, 3, 8]))
        kind = "crafted"
        has = True
        if rng.random() < 0.5:
            rng.shuffle(es)
            kind = "interleaved"
        if rng.random() < 0.1 and es:       # names that differ in case or by a suffix only
            es = [Entry(e.table + rng.choice(["", "", " ", "x", "X"]), e.pk, e.op, e.old, e.new, e.indirect) for e in es]
            kind = "similar names"
        data = encode(es)
        if rng.random() < 0.1:
            hs = enc_header("only a header", [1])
            data = rng.choice([data + hs, hs + data])
            kind, has = kind + "+header", bool(es)
        with open(cs, "wb") as f:
            f.write(data)
        judge(ctx, cs, es, kind, has)
        return
    if r < 0.6:
        # rebased changesets
        base, mine, theirs = merge.gen_triple(rng, ctx)[:3]
        ctx.ok("createChangeset", base, theirs, ctx.path("bt.diff"))
        r = ctx.call("createRebasedChangeset", base, mine, ctx.path("bt.diff"), cs, ctx.path("conf.json"))
        if r.rc != 0:
            raise vf.Skip()
        judge(ctx, cs, decode(read(cs)), "rebased")
        return
    base, mod, tables, ed, gpkg = dbgen.gen_pair(rng, ctx, {"edits": rng.choice([0, 1, 4, 30])})
    ctx.ok("createChangeset", base, mod, cs)
    judge(ctx, cs, decode(read(cs)), "created")
    ctx.ok("invertChangeset", cs, ctx.path("i.diff"))
    judge(ctx, ctx.path("i.diff"), decode(read(ctx.path("i.diff"))), "inverted")
    ctx.ok("dumpData", "sqlite", None, mod, ctx.path("d.diff"))
    judge(ctx, ctx.path("d.diff"), decode(read(ctx.path("d.diff"))), "dump")


def big(ctx, i):
    """more entries than fit 8 and 16 bits, of each kind"""
    es = []
    for op, n in ((INSERT, 70000), (UPDATE, 66000), (DELETE, 300)):
        for k in range(n):
            es.append(Entry("big", (1, 0), op, None if op == INSERT else [k, 1], None if op == DELETE else [k if op == INSERT else UNDEF, 2]))
    es += [Entry(f"t{k}", (1,), INSERT, None, [k]) for k in range(3000)]
    cs = ctx.path("c.diff")
    with open(cs, "wb") as f:
        f.write(encode(es))
    judge(ctx, cs, es, "big")


def any_case(ctx, i):
    return big(ctx, i) if i == 0 else case(ctx, i)


def main(only=None):
    c = vf.Check("C12", rule="summary, count and hasChanges of crafted, created, inverted, dump and rebased changesets compared with independently decoded entries. Non-trivial: distinct (kind of changeset, counts per table)",
                 assumptions=["hasChanges is not asked about files that hold a table header and no entry, which the format does not allow", "table names that are not valid UTF-8 are left out of the JSON comparison"])
    c.run_cases(any_case, only or range(1500 if vf.TIER == "quick" else 30000))
    return c.finish()
