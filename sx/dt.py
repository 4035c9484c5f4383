"""Symbolic datetime / timedelta / uuid / exact quotient-as-float."""
import datetime as _dt, uuid as _uuid, z3
from .core import Unsupported, PathCut, cur
from .vals import (Sym, SymBool, SymInt, SymStr, Opq, mkbool, mkint, mkstr, and_, or_, not_, intx, leaves_of, leaves, conc, realise)

EPOCH = _dt.datetime(1, 1, 1)
MAX_US = int((_dt.datetime(9999, 12, 31, 23, 59, 59, 999999) - EPOCH) / _dt.timedelta(microseconds=1))
DAY = 86400 * 10 ** 6


def us_of_naive(d):
    return (d.replace(tzinfo=None) - EPOCH) // _dt.timedelta(microseconds=1)


def td_us(t):
    return t // _dt.timedelta(microseconds=1)


class SymFrac(Sym):
    """float produced by one correctly rounded division num/den (den > 0), |num/den| < 2^53"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num, self.den = num, den

    def floor_nonneg(self):
        """floor of the rounded value, for num >= 0"""
        q = self.num / z3.IntVal(self.den)
        r = (q + 1) * self.den - self.num          # distance to the next integer, times den
        up = z3.BoolVal(False)
        for k in range(0, 53):
            t = self.den >> (53 - k)
            if t <= 0:
                continue
            lo, hi = self.den << k, self.den << (k + 1)
            up = z3.Or(up, z3.And(self.num >= lo, self.num < hi, r <= t))
        return mkint(q + z3.If(up, z3.IntVal(1), z3.IntVal(0)))

    def trunc(self):
        if cur().branch(self.num >= 0):
            return self.floor_nonneg()
        return -SymFrac(-self.num, self.den).floor_nonneg()

    def __int__(self):
        return int(self.trunc())

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        if cur().branch(self.num >= 0):
            return self.floor_nonneg()
        raise Unsupported('floor of negative quotient')

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round of quotient to decimals')
        if not cur().branch(self.num >= 0):
            return -SymFrac(-self.num, self.den).__round__()
        # quotients close to a half become exactly a half, which rounds to even
        q = self.num / z3.IntVal(self.den)
        d = 2 * self.num - (2 * q + 1) * self.den
        half = d == 0
        for k in range(0, 53):
            t = self.den >> (52 - k)
            if t > 0:
                half = z3.Or(half, z3.And(self.num >= self.den << k, self.num < self.den << (k + 1), d <= t, -d <= t))
        return mkint(z3.If(half, q + q % 2, z3.If(d > 0, q + 1, q)))

    def _cmpv(self):
        if cur().branch(self.num >= 0):
            return self.floor_nonneg()
        return None

    def __lt__(self, o):
        if isinstance(o, (int, SymInt)):
            v = self._cmpv()
            if v is None:
                return self.trunc() <= o if False else (mkbool(self.num < intx(o) * self.den))
            return v < o
        if isinstance(o, SymFrac):
            return mkbool(self.num * o.den < o.num * self.den)
        if isinstance(o, float) and o == int(o):
            return self < int(o)
        raise Unsupported('float comparison')

    def __ge__(self, o):
        return not_(self < o)

    def __le__(self, o):
        if isinstance(o, (int, SymInt)):
            return mkbool(self.num <= intx(o) * self.den)
        if isinstance(o, SymFrac):
            return mkbool(self.num * o.den <= o.num * self.den)
        raise Unsupported('float comparison')

    def __gt__(self, o):
        return not_(self <= o)

    def __eq__(self, o):
        if isinstance(o, (int, SymInt)):
            return mkbool(self.num == intx(o) * self.den)
        raise Unsupported('float comparison')

    def __ne__(self, o):
        return not_(self == o)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            cur().stats.note('float quotient floor-divided (rounding to the next integer modelled)')
            v = self._cmpv()
            if v is not None:
                return mkint(intx(v) / o) if isinstance(v, SymInt) else v // o
        raise Unsupported('float floordiv')

    def __truediv__(self, o):
        if isinstance(o, int) and o > 0:
            cur().stats.note('chained float division treated as one rounding')
            return SymFrac(self.num, self.den * o)
        raise Unsupported('float arithmetic')

    def __add__(self, o):
        raise Unsupported('float arithmetic')
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __add__

    def __bool__(self):
        return cur().branch(self.num != 0)

    def __hash__(self):
        return 3

    def conc(self, m):
        return m.eval(self.num, model_completion=True).as_long() / self.den

    def leaves(self):
        return leaves_of(self.num)

    def is_integer(self):
        raise Unsupported('is_integer')


class SymTimedelta(Sym):
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us            # z3 Int

    def __hash__(self):
        return 5

    def conc(self, m):
        return _dt.timedelta(microseconds=m.eval(self.us, model_completion=True).as_long())

    def leaves(self):
        return leaves_of(self.us)

    @property
    def days(self):
        return mkint(self.us / DAY)

    @property
    def seconds(self):
        return mkint((self.us % DAY) / 1000000)

    @property
    def microseconds(self):
        return mkint(self.us % 1000000)

    def total_seconds(self):
        return SymFrac(self.us, 10 ** 6)

    def _o(self, o):
        if isinstance(o, SymTimedelta):
            return o.us
        if isinstance(o, _dt.timedelta):
            return z3.IntVal(td_us(o))
        return None

    def __add__(self, o):
        if isinstance(o, (_dt.datetime, SymDatetime)):
            return SymDatetime.of(o)._shift(self.us)
        u = self._o(o)
        return NotImplemented if u is None else mktd(self.us + u)
    __radd__ = __add__

    def __sub__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else mktd(self.us - u)

    def __rsub__(self, o):
        if isinstance(o, (_dt.datetime, SymDatetime)):
            return SymDatetime.of(o)._shift(-self.us)
        u = self._o(o)
        return NotImplemented if u is None else mktd(u - self.us)

    def __neg__(self):
        return mktd(-self.us)

    def __abs__(self):
        return mktd(z3.If(self.us < 0, -self.us, self.us))

    def __mul__(self, k):
        if isinstance(k, int):
            return mktd(self.us * k)
        raise Unsupported('timedelta mul')
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, _dt.timedelta):
            return mkint(self.us / z3.IntVal(td_us(o)))
        if isinstance(o, int):
            return mktd(self.us / z3.IntVal(o))
        raise Unsupported('timedelta floordiv')

    def __truediv__(self, o):
        if isinstance(o, _dt.timedelta) and td_us(o) > 0:
            return SymFrac(self.us, td_us(o))
        raise Unsupported('timedelta truediv')

    def __mod__(self, o):
        if isinstance(o, _dt.timedelta) and td_us(o) > 0:
            return mktd(self.us % z3.IntVal(td_us(o)))
        raise Unsupported('timedelta mod')

    def __bool__(self):
        return cur().branch(self.us != 0)

    def _c(self, o, f):
        u = self._o(o)
        return NotImplemented if u is None else mkbool(f(self.us, u))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        u = self._o(o)
        return False if u is None else mkbool(self.us == u)

    def __ne__(self, o):
        return not_(self == o)


def mktd(us):
    us = z3.simplify(us)
    if z3.is_int_value(us):
        return _dt.timedelta(microseconds=us.as_long())
    return SymTimedelta(us)


def make_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    tot = z3.IntVal(0)
    for v, k in ((days, DAY), (seconds, 10 ** 6), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * 10 ** 6),
                 (hours, 3600 * 10 ** 6), (weeks, 7 * DAY)):
        if isinstance(v, SymFrac):
            if k % v.den == 0:
                tot = tot + v.num * (k // v.den)
                cur().stats.note('float seconds turned back into microseconds without rounding')
                continue
            raise Unsupported('timedelta from quotient')
        if isinstance(v, float):
            tot = tot + int(v * k)
        else:
            tot = tot + intx(v) * k
    lim = 999999999 * DAY
    if cur().branch(z3.Or(tot > lim + DAY - 1, tot < -lim)):
        raise OverflowError('days=%d; must have magnitude <= 999999999')
    return mktd(tot)


class SymTz(_dt.tzinfo):
    """fixed offset, symbolic number of microseconds"""
    def __init__(self, off):
        self.off = off

    def utcoffset(self, d):
        return mktd(self.off)

    def __deepcopy__(self, memo):
        return self


def tz_off(tz, dt=None):
    """z3 Int microseconds, or None"""
    if tz is None:
        return None
    if isinstance(tz, SymTz):
        return tz.off
    if isinstance(tz, _dt.timezone):
        return z3.IntVal(td_us(tz.utcoffset(None)))
    raise Unsupported('tzinfo ' + type(tz).__name__)


class SymDatetime(Sym):
    __slots__ = ('us', 'tz')

    def __init__(self, us, tz):
        self.us, self.tz = us, tz

    @staticmethod
    def of(d):
        if isinstance(d, SymDatetime):
            return d
        return SymDatetime(z3.IntVal(us_of_naive(d)), d.tzinfo)

    def __hash__(self):
        return 7

    def conc(self, m):
        d = EPOCH + _dt.timedelta(microseconds=m.eval(self.us, model_completion=True).as_long())
        if self.tz is None:
            return d
        if isinstance(self.tz, SymTz):
            tz = _dt.timezone(_dt.timedelta(microseconds=m.eval(self.tz.off, model_completion=True).as_long()))
        else:
            tz = self.tz
        return d.replace(tzinfo=tz)

    def leaves(self):
        return leaves_of(self.us) + (leaves_of(self.tz.off) if isinstance(self.tz, SymTz) else [])

    @property
    def tzinfo(self):
        return self.tz

    def utcoffset(self):
        o = tz_off(self.tz)
        return None if o is None else mktd(o)

    def utc(self):
        o = tz_off(self.tz)
        return self.us if o is None else self.us - o

    def _shift(self, us):
        r = z3.simplify(self.us + us)
        if cur().branch(z3.Or(r < 0, r > MAX_US)):
            raise OverflowError('date value out of range')
        return mkdt(r, self.tz)

    def __add__(self, o):
        if isinstance(o, SymTimedelta):
            return self._shift(o.us)
        if isinstance(o, _dt.timedelta):
            return self._shift(z3.IntVal(td_us(o)))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymTimedelta):
            return self._shift(-o.us)
        if isinstance(o, _dt.timedelta):
            return self._shift(z3.IntVal(-td_us(o)))
        if isinstance(o, (_dt.datetime, SymDatetime)):
            o = SymDatetime.of(o)
            if (self.tz is None) != (o.tz is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return mktd(self.utc() - o.utc())
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SymDatetime.of(o).__sub__(self)
        return NotImplemented

    def _c(self, o, f):
        if not isinstance(o, (_dt.datetime, SymDatetime)):
            return NotImplemented
        o = SymDatetime.of(o)
        if (self.tz is None) != (o.tz is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return mkbool(f(self.utc(), o.utc()))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not isinstance(o, (_dt.datetime, SymDatetime)):
            return False
        o = SymDatetime.of(o)
        if (self.tz is None) != (o.tz is None):
            return False
        return mkbool(self.utc() == o.utc())

    def __ne__(self, o):
        return not_(self == o)

    def __bool__(self):
        return True

    def isoformat(self, sep='T', timespec='auto'):
        d = self
        if timespec == 'seconds':
            d = mkdt(self.us - self.us % 1000000, self.tz)
        elif timespec != 'auto' or sep != 'T':
            raise Unsupported('isoformat variant')
        if isinstance(d, _dt.datetime):
            return d.isoformat()
        if timespec == 'seconds':
            return SymStr([Opq('iso', d)])
        return SymStr([Opq('iso', d)])

    def text(self):
        return SymStr([Opq('isosp', self)])

    def date(self):
        return mkdate(self.us / DAY)

    def civil(self):
        return civil(self.us / DAY)

    @property
    def year(self):
        return mkint(self.civil()[0])

    @property
    def month(self):
        return mkint(self.civil()[1])

    @property
    def day(self):
        return mkint(self.civil()[2])

    def weekday(self):
        return mkint((self.us / DAY) % 7)

    def __str__(self):
        raise Unsupported('str(datetime)')

    def strftime(self, fmt):
        # exact for ISO-like formats of whole seconds
        base = '%Y-%m-%dT%H:%M:%S'
        if fmt.startswith(base) and '%' not in fmt[len(base):]:
            d = mkdt(self.us - self.us % 1000000, None)
            # %Y is not zero padded for years < 1000 on this platform
            if isinstance(d, _dt.datetime):
                return d.isoformat() + fmt[len(base):]
            if cur().branch(self.us < us_of_naive(_dt.datetime(1000, 1, 1))):
                return realise(self, 'strftime').strftime(fmt)
            return SymStr([Opq('iso', d)]) + fmt[len(base):]
        return realise(self, 'strftime').strftime(fmt)

    def replace(self, **kw):
        us, tz = self.us, self.tz
        for k, v in kw.items():
            if k == 'tzinfo':
                tz = v
            elif k == 'microsecond' and isinstance(v, int):
                us = us - us % 1000000 + v
            elif k == 'second' and isinstance(v, int):
                us = us - (us % 60000000) + (us % 1000000) + v * 1000000
            else:
                d = realise(self, 'datetime.replace')
                return d.replace(**{a: realise(b) for a, b in kw.items()})
        return mkdt(us, tz)

    def astimezone(self, tz=None):
        src = tz_off(self.tz)
        if src is None:
            cur().stats.note('assumed: system time zone is UTC for naive datetimes')
            src = z3.IntVal(0)
        if tz is None:
            tz = _dt.timezone.utc
        r = z3.simplify(self.us - src + tz_off(tz))
        if cur().branch(z3.Or(r < 0, r > MAX_US)):
            raise OverflowError('date value out of range')
        return mkdt(r, tz)

    def timestamp(self):
        if self.tz is None:
            cur().stats.note('assumed: system time zone is UTC for naive datetimes')
        return SymFrac(self.utc() - us_of_naive(_dt.datetime(1970, 1, 1)), 10 ** 6)

    @property
    def microsecond(self):
        return mkint(self.us % 1000000)

    @property
    def second(self):
        return mkint((self.us / 1000000) % 60)

    @property
    def minute(self):
        return mkint((self.us / 60000000) % 60)

    @property
    def hour(self):
        return mkint((self.us / 3600000000) % 24)

    def toordinal(self):
        return mkint(self.us / DAY + 1)

    def __getattr__(self, name):
        if hasattr(_dt.datetime, name):
            raise Unsupported('datetime.' + name)
        raise AttributeError(name)


def civil(n):
    """year, month and day of day n (0 is 1 January of year 1), proleptic Gregorian calendar"""
    n = n + 306                      # from 1 March of year 0
    era = n / 146097
    doe = n - era * 146097
    yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe / 4 - yoe / 100)
    mp = (5 * doy + 2) / 153
    d = doy - (153 * mp + 2) / 5 + 1
    m = z3.If(mp < 10, mp + 3, mp - 9)
    return z3.If(m <= 2, y + 1, y), m, d


class SymDate(Sym):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n              # days since 1 January of year 1

    def __hash__(self):
        return 13

    def conc(self, m):
        return _dt.date.fromordinal(m.eval(self.n, model_completion=True).as_long() + 1)

    def leaves(self):
        return leaves_of(self.n)

    def _o(self, o):
        if isinstance(o, SymDate):
            return o.n
        if isinstance(o, _dt.date) and not isinstance(o, _dt.datetime):
            return z3.IntVal(o.toordinal() - 1)
        return None

    def _shift(self, n):
        r = z3.simplify(self.n + n)
        if cur().branch(z3.Or(r < 0, r > MAX_US // DAY)):
            raise OverflowError('date value out of range')
        return mkdate(r)

    def __sub__(self, o):
        u = self._o(o)
        if u is not None:
            return mktd((self.n - u) * DAY)
        if isinstance(o, SymTimedelta):
            return self._shift(-(o.us / DAY))
        if isinstance(o, _dt.timedelta):
            return self._shift(z3.IntVal(-o.days))
        return NotImplemented

    def __rsub__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else mktd((u - self.n) * DAY)

    def __add__(self, o):
        if isinstance(o, SymTimedelta):
            return self._shift(o.us / DAY)
        if isinstance(o, _dt.timedelta):
            return self._shift(z3.IntVal(o.days))
        return NotImplemented
    __radd__ = __add__

    def _c(self, o, f):
        u = self._o(o)
        return NotImplemented if u is None else mkbool(f(self.n, u))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        u = self._o(o)
        return False if u is None else mkbool(self.n == u)

    def __ne__(self, o):
        return not_(self == o)

    def __bool__(self):
        return True

    def toordinal(self):
        return mkint(self.n + 1)

    def weekday(self):
        return mkint(self.n % 7)

    year = property(lambda self: mkint(civil(self.n)[0]))
    month = property(lambda self: mkint(civil(self.n)[1]))
    day = property(lambda self: mkint(civil(self.n)[2]))

    def __getattr__(self, name):
        if hasattr(_dt.date, name):
            raise Unsupported('date.' + name)
        raise AttributeError(name)


def mkdate(n):
    n = z3.simplify(n)
    if z3.is_int_value(n):
        return _dt.date.fromordinal(n.as_long() + 1)
    return SymDate(n)


def strptime(s, fmt):
    """exact for the ISO layout"""
    f = fmt.replace('%z', '').replace('Z', '') if isinstance(fmt, str) else ''
    if isinstance(s, SymStr) and f == '%Y-%m-%dT%H:%M:%S' and isinstance(s.segs[0], Opq) and s.segs[0].kind == 'iso':
        d = s.segs[0].v
        if cur().branch(z3.And(d.us % 1000000 == 0, d.us >= us_of_naive(_dt.datetime(1000, 1, 1)))):
            rest = mkstr(s.segs[1:])
            if isinstance(rest, str):
                x = _dt.datetime.strptime('2000-01-01T00:00:00' + (rest if d.tz is None else '+00:00' + rest), fmt)
                if d.tz is None:
                    return mkdt(d.us, x.tzinfo)
                return mkdt(d.us, d.tz)
    return _dt.datetime.strptime(realise(s, 'strptime'), fmt)


def mkdt(us, tz):
    us = z3.simplify(us)
    if z3.is_int_value(us) and not isinstance(tz, SymTz):
        v = us.as_long()
        if not 0 <= v <= MAX_US:
            raise OverflowError('date value out of range')
        return (EPOCH + _dt.timedelta(microseconds=v)).replace(tzinfo=tz)
    return SymDatetime(us, tz)


def iso_eq(a, b):
    if (a.tz is None) != (b.tz is None):
        return False
    cs = [mkbool(a.us == b.us)]
    if a.tz is not None:
        cs.append(mkbool(tz_off(a.tz) == tz_off(b.tz)))
    return and_(*cs)


def iso_eq_lit(a, lit):
    try:
        d = _dt.datetime.fromisoformat(lit)
    except ValueError:
        return False
    if d.isoformat() != lit:
        return False
    return iso_eq(a, SymDatetime.of(d))


def fromisoformat(s):
    if isinstance(s, str):
        return _dt.datetime.fromisoformat(s)
    if isinstance(s, SymStr):
        segs = s.segs
        if isinstance(segs[0], Opq) and segs[0].kind == 'iso':
            d = segs[0].v
            if len(segs) == 1:
                return mkdt(d.us, d.tz)
            if len(segs) == 2 and isinstance(segs[1], str) and d.tz is None:
                suf = segs[1]
                x = _dt.datetime.fromisoformat('2000-01-01T00:00:00' + suf)   # may raise ValueError as the real one
                if x.replace(tzinfo=None) == _dt.datetime(2000, 1, 1):
                    return mkdt(d.us, x.tzinfo)
            raise ValueError('Invalid isoformat string')
        if len(segs) == 1 and isinstance(segs[0], Opq):
            raise ValueError('Invalid isoformat string')
    return _dt.datetime.fromisoformat(realise(s, 'fromisoformat'))


class SymUUID(Sym):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v     # SymInt

    def __hash__(self):
        return 11

    @property
    def int(self):
        return self.v

    @property
    def bytes(self):
        from .byt import int_to_bytes, memo_blob, Blob, Sl, mkbytes
        eng = cur()
        key = ('uuidb', self.v.e.get_id())
        if key not in eng.reg:
            b = Blob('int', (self.v, 16, 'big', False), 16)
            eng.reg[key] = (mkbytes([Sl(b, 0, 16)]), self.v)
        return eng.reg[key][0]

    @property
    def hex(self):
        return SymStr([Opq('hex', (self.v, 32))])

    def __str__(self):
        raise Unsupported('str(uuid)')

    def text(self):
        segs, at = [], 128
        for n in (8, 4, 4, 4, 12):
            at -= 4 * n
            segs += ['-'] if segs else []
            segs.append(Opq('hex', (SymInt(z3.simplify((self.v.e / z3.IntVal(2 ** at)) % z3.IntVal(16 ** n))), n)))
        return SymStr(segs)

    def __eq__(self, o):
        if isinstance(o, SymUUID):
            return mkbool(self.v.e == o.v.e)
        if isinstance(o, _uuid.UUID):
            return mkbool(self.v.e == o.int)
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return self.v < (o.v if isinstance(o, SymUUID) else o.int)

    def part(self, at, bits):
        return SymInt(z3.simplify((self.v.e / z3.IntVal(2 ** at)) % z3.IntVal(2 ** bits)))

    time_low = property(lambda s: s.part(96, 32))
    time_mid = property(lambda s: s.part(80, 16))
    time_hi_version = property(lambda s: s.part(64, 16))
    clock_seq_hi_variant = property(lambda s: s.part(56, 8))
    clock_seq_low = property(lambda s: s.part(48, 8))
    clock_seq = property(lambda s: SymInt(z3.simplify((s.v.e / z3.IntVal(2 ** 48)) % z3.IntVal(2 ** 14))))
    node = property(lambda s: s.part(0, 48))

    @property
    def fields(self):
        return (self.time_low, self.time_mid, self.time_hi_version, self.clock_seq_hi_variant, self.clock_seq_low, self.node)

    @property
    def urn(self):
        return SymStr(['urn:uuid:'] + list(self.text().segs))

    @property
    def bytes_le(self):
        b = self.bytes
        return b[4 - 1::-1] + b[6 - 1:4 - 1:-1] + b[8 - 1:6 - 1:-1] + b[8:]

    def __getattr__(self, name):
        if hasattr(_uuid.UUID, name) or name in ('int', 'is_safe'):
            raise Unsupported('uuid.' + name)
        raise AttributeError(name)

    def __repr__(self):
        return 'SymUUID'

    def conc(self, m):
        return _uuid.UUID(int=conc(self.v, m))

    def leaves(self):
        return self.v.leaves()


def mkuuid(v):
    if isinstance(v, int):
        return _uuid.UUID(int=v)
    return SymUUID(v)


def fresh_uuid(name='uuid'):
    eng = cur()
    v = z3.Int(eng.fresh(name))
    eng.add(z3.And(v >= 0, v < 2 ** 128))
    known = eng.reg.setdefault('uuids', [])
    for o in known:
        eng.add(v != o)
    known.append(v)
    return SymUUID(SymInt(v))


def note_uuid(v):
    """record a uuid value already in use, so that freshly generated ones differ from it"""
    cur().reg.setdefault('uuids', []).append(v)
