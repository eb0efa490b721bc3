"""datetime / calendar shims for symbolic years, months and days."""
import datetime as _dt
import calendar as _cal
import z3
from .core import (E, SymInt, SymBool, Unsupported, s_and, s_or, s_not, s_if,
                   mkbool, mkint, is_sym)

_CUM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_DIM = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def is_leap(y):
    if isinstance(y, int):
        return _cal.isleap(y)
    return s_and(y % 4 == 0, s_or(y % 100 != 0, y % 400 == 0))


def days_before_year(y):
    y = y - 1
    return y * 365 + y // 4 - y // 100 + y // 400


def jan1_weekday(y):
    """Monday=0 weekday of January 1."""
    if isinstance(y, int):
        return (days_before_year(y)) % 7
    y = y - 1
    return ((y % 4) * 5 + (y % 100) * 4 + (y % 400) * 6) % 7


def cal_class(y):
    """(is leap, weekday of January 1) as Python constants.

    A symbolic year is split into the 14 calendar classes, which keeps all
    weekday arithmetic that follows linear."""
    if isinstance(y, int):
        return _cal.isleap(y), jan1_weekday(y)
    key = ('cal', y.e.get_id())
    hit = E.memo.get(key)
    if hit is None:
        lp = bool(is_leap(y))
        hit = (lp, jan1_weekday(y).conc(), y.e)
        E.memo[key] = hit
    return hit[:2]


def pick(table, i):
    """table[i] without forking for ints (i may be symbolic)."""
    if isinstance(i, int):
        return table[i]
    lo = 0 if i.lo is None else max(0, i.lo)
    hi = len(table) - 1 if i.hi is None else min(len(table) - 1, i.hi)
    r = table[hi]
    for k in range(hi - 1, lo - 1, -1):
        r = s_if(i == k, table[k], r)
    return r


def dim(y, m):
    if isinstance(m, int):
        if m != 2:
            return _DIM[m]
        return s_if(is_leap(y), 29, 28)
    return s_if(s_and(m == 2, is_leap(y)), 29, pick(_DIM, m))


def day_of_year0(y, m, d):
    """0-based day of the year."""
    base = pick(_CUM, m)
    if isinstance(m, int):
        leap = s_if(is_leap(y), 1, 0) if m > 2 else 0
    else:
        leap = s_if(s_and(m > 2, is_leap(y)), 1, 0)
    return base + (d - 1) + leap


def ordinal(y, m, d):
    return days_before_year(y) + day_of_year0(y, m, d) + 1


class timedelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0,
                 minutes=0, hours=0, weeks=0):
        if microseconds or milliseconds:
            raise Unsupported('timedelta microseconds')
        s = days * 86400 + seconds + minutes * 60 + hours * 3600 \
            + weeks * 604800
        self._s = s

    @property
    def days(self):
        return self._s // 86400

    @property
    def seconds(self):
        return self._s % 86400

    def total_seconds(self):
        return self._s

    def _mk(self, s):
        return timedelta(seconds=s)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return self._mk(self._s + o._s)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self._mk(self._s - o._s)
        return NotImplemented

    def __neg__(self):
        return self._mk(-self._s)

    def __mul__(self, k):
        return self._mk(self._s * k)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            return self._s // o._s
        return self._mk(self._s // o)

    def __eq__(self, o):
        return self._s == o._s if isinstance(o, timedelta) else False

    def __lt__(self, o):
        return self._s < o._s

    def __le__(self, o):
        return self._s <= o._s

    def __gt__(self, o):
        return self._s > o._s

    def __ge__(self, o):
        return self._s >= o._s

    def __hash__(self):
        return hash(self._s)


def _chk_range(v, lo, hi, msg):
    if not isinstance(v, (int, SymInt)):
        raise TypeError("'%s' object cannot be interpreted as an integer"
                        % type(v).__name__)
    if v < lo or v > hi:
        raise ValueError(msg)


class date:
    def __init__(self, year, month, day):
        _chk_range(year, 1, 9999, 'year %s is out of range' % (
            year if isinstance(year, int) else 'symbolic'))
        _chk_range(month, 1, 12, 'month must be in 1..12')
        if not isinstance(day, (int, SymInt)):
            raise TypeError('day must be an integer')
        if day < 1 or day > dim(year, month):
            raise ValueError('day is out of range for month')
        self.year = year
        self.month = month
        self.day = day

    def weekday(self):
        lp, j = cal_class(self.year)
        return (j + day_of_year0(2000 if lp else 2001, self.month,
                                 self.day)) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def toordinal(self):
        return ordinal(self.year, self.month, self.day)

    @classmethod
    def fromordinal(cls, n):
        if isinstance(n, int):
            d = _dt.date.fromordinal(n)
            return cls(d.year, d.month, d.day)
        raise Unsupported('fromordinal of a symbolic day')

    def timetuple(self):
        raise Unsupported('timetuple')

    def replace(self, year=None, month=None, day=None):
        return type(self)(self.year if year is None else year,
                          self.month if month is None else month,
                          self.day if day is None else day)

    def isoformat(self):
        from .strings import cat, fmt_value
        return cat(fmt_value(self.year, '04'), '-', fmt_value(self.month,
                   '02'), '-', fmt_value(self.day, '02'))

    __str__ = isoformat

    def _shift(self, k):
        y, m, d = self.year, self.month, self.day
        d = d + k
        n = 0
        while d < 1:
            n += 1
            if n > 400:
                raise Unsupported('large date shift')
            if m == 1:
                y, m = y - 1, 12
            else:
                m = m - 1
            if y < 1:
                raise OverflowError('date value out of range')
            d = d + dim(y, m)
        while True:
            n += 1
            if n > 800:
                raise Unsupported('large date shift')
            x = dim(y, m)
            if d <= x:
                break
            d = d - x
            if m == 12:
                y, m = y + 1, 1
            else:
                m = m + 1
            if y > 9999:
                raise OverflowError('date value out of range')
        return date(y, m, d)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return self._shift(o.days)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self._shift(-o.days)
        if isinstance(o, date):
            return timedelta(days=self.toordinal() - o.toordinal())
        return NotImplemented

    def _k(self):
        return (self.year, self.month, self.day)

    def __eq__(self, o):
        if not isinstance(o, date):
            return False
        return s_and(*[a == b for a, b in zip(self._k(), o._k())])

    def __ne__(self, o):
        return s_not(self == o)

    def _lt(self, o):
        a, b = self._k(), o._k()
        return s_or(a[0] < b[0], s_and(a[0] == b[0], s_or(
            a[1] < b[1], s_and(a[1] == b[1], a[2] < b[2]))))

    def __lt__(self, o):
        return self._lt(o)

    def __gt__(self, o):
        return o._lt(self)

    def __le__(self, o):
        return s_not(o._lt(self))

    def __ge__(self, o):
        return s_not(self._lt(o))

    def __hash__(self):
        return hash(self._k())


class _DateMeta(type):
    pass


class _DatetimeModule:
    MINYEAR = 1
    MAXYEAR = 9999
    date = date
    timedelta = timedelta

    @property
    def datetime(self):
        return _datetime

    def __getattr__(self, n):
        return getattr(_dt, n)


class _datetime(date):
    """Only the calendar part and h/m/s, enough for comparisons."""

    def __init__(self, year, month, day, hour=0, minute=0, second=0,
                 microsecond=0, tzinfo=None):
        date.__init__(self, year, month, day)
        _chk_range(hour, 0, 23, 'hour must be in 0..23')
        _chk_range(minute, 0, 59, 'minute must be in 0..59')
        _chk_range(second, 0, 59, 'second must be in 0..59')
        self.hour, self.minute, self.second = hour, minute, second
        self.tzinfo = tzinfo

    def date(self):
        return date(self.year, self.month, self.day)

    def _sod(self):
        return self.hour * 3600 + self.minute * 60 + self.second

    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        s = self._sod() + o._s
        d = self.date()._shift(s // 86400)
        s = s % 86400
        return _datetime(d.year, d.month, d.day, s // 3600, s // 60 % 60,
                         s % 60)

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self + (-o)
        if isinstance(o, _datetime):
            return timedelta(seconds=(self.toordinal() - o.toordinal())
                             * 86400 + self._sod() - o._sod())
        return NotImplemented

    def _k(self):
        return (self.year, self.month, self.day, self._sod())

    def __eq__(self, o):
        if not isinstance(o, _datetime):
            return False
        return s_and(*[a == b for a, b in zip(self._k(), o._k())])

    def _lt(self, o):
        a, b = self._k(), o._k()
        r = a[3] < b[3]
        for i in (2, 1, 0):
            r = s_or(a[i] < b[i], s_and(a[i] == b[i], r))
        return r

    def __hash__(self):
        return hash(self._k())

    @classmethod
    def now(cls, tz=None):
        return _dt.datetime.now(tz)

    utcnow = now


datetime_module = _DatetimeModule()


class _CalendarModule:
    def isleap(self, y):
        return is_leap(y)

    def monthrange(self, y, m):
        if m < 1 or m > 12:
            raise _cal.IllegalMonthError(m if isinstance(m, int) else 0)
        return (self.weekday(y, m, 1), dim(y, m))

    def weekday(self, y, m, d):
        return date(y, m, d).weekday()

    def leapdays(self, a, b):
        a = a - 1
        b = b - 1
        return (b // 4 - b // 100 + b // 400) - (a // 4 - a // 100 + a // 400)

    def __getattr__(self, n):
        return getattr(_cal, n)


calendar_module = _CalendarModule()
