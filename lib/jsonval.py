"""Reads the JSON the library writes and compares values with changeset values."""
import base64, json, math
from changeset import UNDEF, canon


class Bad(Exception):
    pass


def load(b):
    """strict JSON in valid UTF-8"""
    try:
        s = b.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Bad(f"not UTF-8: {e}")

    def const(c):
        raise Bad(f"not JSON: {c}")

    def pairs(p):
        if len({k for k, _ in p}) != len(p):
            raise Bad("repeated key")
        return dict(p)
    try:
        return json.loads(s, parse_constant=const, object_pairs_hook=pairs)
    except ValueError as e:
        raise Bad(f"not JSON: {e}")


MISSING = object()


def matches(j, v):
    """does JSON value j (MISSING if absent) stand for changeset value v"""
    if v is UNDEF:
        return j is MISSING
    if j is MISSING:
        return False
    if v is None:
        return j is None
    if isinstance(v, float):
        if math.isnan(v):
            return j is None
        return isinstance(j, float) and j == v
    if isinstance(v, int):
        return isinstance(j, int) and not isinstance(j, bool) and j == v
    if isinstance(v, str):
        return isinstance(j, str) and (j == v or invalid(v))
    return isinstance(j, str) and j == base64.b64encode(bytes(v)).decode()


def invalid(s):
    """text that is not valid UTF-8 in the changeset: JSON can't carry it exactly"""
    try:
        s.encode("utf-8")
        return False
    except UnicodeEncodeError:
        return True
