"""Independent codec for the changeset format (docs/changeset-format.md)."""
import struct


class _U:
    _i = None
    def __new__(cls):
        if cls._i is None:
            cls._i = object.__new__(cls)
        return cls._i
    def __repr__(self):
        return "UNDEF"
    def __reduce__(self):
        return (_U, ())


UNDEF = _U()
INSERT, UPDATE, DELETE = 18, 23, 9


class FormatError(Exception):
    pass


class Entry:
    __slots__ = ("table", "pk", "op", "indirect", "old", "new")

    def __init__(self, table, pk, op, old=None, new=None, indirect=0):
        self.table, self.pk, self.op, self.old, self.new, self.indirect = table, tuple(pk), op, old, new, indirect

    def key(self):
        row = self.new if self.op == INSERT else self.old
        return tuple(canon(v) for v, p in zip(row, self.pk) if p)

    def __repr__(self):
        return f"{ {18: 'INSERT', 23: 'UPDATE', 9: 'DELETE'}.get(self.op, self.op)} {self.table} old={self.old} new={self.new}"


def canon(v):
    """a hashable form with exact type; -0.0 and 0.0 are one value for SQLite"""
    if v is UNDEF:
        return ("u",)
    if v is None:
        return ("n",)
    if isinstance(v, bool):
        return ("i", int(v))
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, float):
        return ("f", v + 0.0 if v != 0 else 0.0)
    if isinstance(v, str):
        return ("t", v)
    return ("b", bytes(v))


def crow(row):
    return None if row is None else tuple(canon(v) for v in row)


def uvarint(b, o):
    """SQLite varint, up to 9 bytes"""
    v = 0
    for i in range(9):
        if o >= len(b):
            raise FormatError("varint past the end")
        c = b[o]
        o += 1
        if i == 8:
            return (v << 8) | c, o
        v = (v << 7) | (c & 0x7f)
        if not c & 0x80:
            return v, o


def enc_varint(n):
    if n < 0x80:
        return bytes([n])
    if n >= 1 << 56:
        out = [n & 0xff]
        n >>= 8
        for _ in range(8):
            out.append((n & 0x7f) | 0x80)
            n >>= 7
        return bytes(reversed(out))
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append((n & 0x7f) | 0x80)
        n >>= 7
    return bytes(reversed(out))


def _row(b, o, n):
    row = []
    for _ in range(n):
        if o >= len(b):
            raise FormatError("record past the end")
        t = b[o]
        o += 1
        if t == 0:
            row.append(UNDEF)
        elif t == 5:
            row.append(None)
        elif t in (1, 2):
            if o + 8 > len(b):
                raise FormatError("number past the end")
            row.append(struct.unpack(">q" if t == 1 else ">d", b[o:o + 8])[0])
            o += 8
        elif t in (3, 4):
            n_, o = uvarint(b, o)
            if o + n_ > len(b):
                raise FormatError("text/blob past the end")
            raw = b[o:o + n_]
            o += n_
            row.append(raw.decode("utf-8", "surrogateescape") if t == 3 else raw)
        else:
            raise FormatError(f"bad value type {t}")
    return row, o


def decode(b, headers=None):
    """-> list of Entry; headers collects (table, pk, number of entries) per table header"""
    o, out, cur = 0, [], None
    while o < len(b):
        c = b[o]
        o += 1
        if c == 0x54:
            n, o = uvarint(b, o)
            if o + n > len(b) or n == 0:
                raise FormatError("bad column count")
            pk = b[o:o + n]
            o += n
            e = b.find(b"\0", o)
            if e < 0:
                raise FormatError("unterminated table name")
            cur = (b[o:e].decode("utf-8", "surrogateescape"), tuple(pk))
            o = e + 1
            if headers is not None:
                headers.append([cur[0], cur[1], 0])
        elif c in (INSERT, UPDATE, DELETE):
            if cur is None:
                raise FormatError("entry before a table header")
            if o >= len(b):
                raise FormatError("entry past the end")
            ind = b[o]
            o += 1
            old = new = None
            if c != INSERT:
                old, o = _row(b, o, len(cur[1]))
            if c != DELETE:
                new, o = _row(b, o, len(cur[1]))
            out.append(Entry(cur[0], cur[1], c, old, new, ind))
            if headers is not None:
                headers[-1][2] += 1
        else:
            raise FormatError(f"bad record type {c}")
    return out


def enc_value(v):
    if v is UNDEF:
        return b"\0"
    if v is None:
        return b"\5"
    if isinstance(v, int):
        return b"\1" + struct.pack(">q", v)
    if isinstance(v, float):
        return b"\2" + struct.pack(">d", v)
    if isinstance(v, str):
        r = v.encode("utf-8", "surrogateescape")
        return b"\3" + enc_varint(len(r)) + r
    return b"\4" + enc_varint(len(v)) + bytes(v)


def enc_header(table, pk):
    return b"T" + enc_varint(len(pk)) + bytes(pk) + table.encode("utf-8", "surrogateescape") + b"\0"


def enc_entry(e):
    b = bytes([e.op, e.indirect])
    if e.op != INSERT:
        b += b"".join(enc_value(v) for v in e.old)
    if e.op != DELETE:
        b += b"".join(enc_value(v) for v in e.new)
    return b


def encode(entries):
    out, cur = [], None
    for e in entries:
        if (e.table, e.pk) != cur:
            out.append(enc_header(e.table, e.pk))
            cur = (e.table, e.pk)
        out.append(enc_entry(e))
    return b"".join(out)


def conformance(b, noop=False):
    """list of violations of the documented format, beyond being decodable; noop: unchanged columns may be listed"""
    hs, bad = [], []
    es = decode(b, hs)
    names = [h[0] for h in hs]
    if len(set(names)) != len(names):
        bad.append("a table has more than one group")
    for h in hs:
        if h[2] == 0:
            bad.append(f"table header without changes: {h[0]}")
        if any(p > 1 for p in h[1]) and sum(1 for p in h[1] if p) == 1:
            bad.append("primary key flag not 0x00/0x01")
        if not any(h[1]):
            bad.append("table without a primary key")
    seen = set()
    for e in es:
        k = (e.table, e.key())
        if k in seen and ("n",) not in k[1]:      # rows with a null key are all different
            bad.append(f"two entries for one row {k}")
        seen.add(k)
        if e.op in (INSERT, DELETE):
            row = e.new if e.op == INSERT else e.old
            if any(v is UNDEF for v in row):
                bad.append(f"undefined value in {e}")
        else:
            changed = 0
            for o, n, p in zip(e.old, e.new, e.pk):
                if p:
                    if o is UNDEF:
                        bad.append(f"undefined primary key in {e}")
                    if n is not UNDEF:
                        bad.append(f"changed primary key in {e}")
                else:
                    if (o is UNDEF) != (n is UNDEF):
                        bad.append(f"old and new not both present for a column of {e}")
                    elif n is not UNDEF:
                        changed += 1
                        if canon(o) == canon(n) and not noop:
                            bad.append(f"unchanged column present in {e}")
            if not changed:
                bad.append(f"update without changes {e}")
    return es, bad
