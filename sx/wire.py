"""JSON encoding of concrete inputs and observations (shared by the symbolic and the real side; no z3 here)."""
import uuid, datetime


def enc(v):
    if v is None:
        return ['n']
    if v is True or v is False:
        return ['b', v]
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, float):
        return ['f', repr(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, (bytes, bytearray)):
        return ['B', bytes(v).hex()]
    if isinstance(v, uuid.UUID):
        return ['u', v.hex]
    if isinstance(v, datetime.datetime):
        off = v.utcoffset()
        return ['d', v.replace(tzinfo=None).isoformat(), None if off is None else off.total_seconds()]
    if isinstance(v, datetime.timedelta):
        return ['t', str(v // datetime.timedelta(microseconds=1))]
    if isinstance(v, tuple):
        return ['T', [enc(x) for x in v]]
    if isinstance(v, list):
        return ['l', [enc(x) for x in v]]
    if isinstance(v, dict):
        return ['m', [[enc(k), enc(x)] for k, x in v.items()]]
    return ['?', type(v).__name__]


def dec(e):
    k = e[0]
    if k == 'n':
        return None
    if k in ('b', 's'):
        return e[1]
    if k == 'i':
        return int(e[1])
    if k == 'f':
        return float(e[1])
    if k == 'B':
        return bytes.fromhex(e[1])
    if k == 'u':
        return uuid.UUID(hex=e[1])
    if k == 'd':
        d = REAL_DT.fromisoformat(e[1])
        if e[2] is not None:
            off = datetime.timedelta(seconds=e[2])
            d = d.replace(tzinfo=datetime.timezone(off) if off else datetime.timezone.utc)
        return d
    if k == 't':
        return datetime.timedelta(microseconds=int(e[1]))
    if k == 'T':
        return tuple(dec(x) for x in e[1])
    if k == 'l':
        return [dec(x) for x in e[1]]
    if k == 'm':
        return {dec(a): dec(b) for a, b in e[1]}
    raise ValueError(e)


REAL_DT = datetime.datetime
