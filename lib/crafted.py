"""Random well-formed changesets that need no database."""
import dbgen
from changeset import Entry, UNDEF, INSERT, UPDATE, DELETE, canon

SIZES = [0, 1, 2, 126, 127, 128, 129, 16383, 16384, 16385]


def val(rng, notnull=False):
    r = rng.random()
    if r < 0.04:
        n = rng.choice(SIZES)
        return ("x" * n) if rng.random() < 0.5 else bytes([rng.randrange(256)]) * n
    if r < 0.05:
        n = rng.choice([2097151, 2097152])
        return rng.choice(["y" * n, b"z" * n]) if rng.random() < 0.1 else "y" * 300
    return dbgen.value(rng, rng.choice(["int", "real", "text", "blob", "geom", "date"]), notnull)


def entries(rng, maxn=12, nan=True, groups=None, keys=True):
    """entries grouped by table, one per row, documented shape"""
    out = []
    for name in dbgen.gen_names(rng, groups if groups is not None else rng.choice([0, 1, 1, 2, 3]), 0.5):
        ncol = rng.choice([1, 2, 3, 4, 7, 7, 20, 127, 128, 300] if rng.random() < 0.3 else [1, 2, 3, 4, 5, 6])
        pk = [0] * ncol
        for j in rng.sample(range(ncol), min(ncol, rng.choice([1, 1, 1, 1, 2, 3]))):
            pk[j] = 1
        seen = set()
        for _ in range(rng.randint(1, maxn if ncol < 50 else 3)):
            row = [val(rng, p) for p in pk]
            key = tuple(canon(v) for v, p in zip(row, pk) if p)
            if key in seen:
                continue
            seen.add(key)
            op = rng.choice([INSERT, UPDATE, DELETE])
            ind = rng.choice([0, 0, 0, 1])
            if op == INSERT:
                out.append(Entry(name, pk, op, None, row, ind))
            elif op == DELETE:
                out.append(Entry(name, pk, op, row, None, ind))
            else:
                ch = [j for j in range(ncol) if not pk[j] or (keys and rng.random() < 0.1)]       # a key may change, too
                if not ch:
                    continue
                ch = set(rng.sample(ch, rng.randint(1, len(ch))))
                new = [val(rng) if j in ch else UNDEF for j in range(ncol)]
                for j in list(ch):
                    if canon(new[j]) == canon(row[j]):
                        new[j] = "changed %d" % rng.getrandbits(60)
                old = [row[j] if pk[j] or j in ch else UNDEF for j in range(ncol)]
                out.append(Entry(name, pk, op, old, new, ind))
    return out
