"""TZ source text and reference semantics, independent of the code under test.

All functions take ints or symbolic ints and never fork unless noted."""
from harness.ctx import And, Or, Not, If, Implies, Iff, eq, cat, fmt
from pysym.core import SymInt, SymBool
from pysym.strings import SymStr
from pysym.dates import cal_class

MONTHS = ['', 'Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec']
DOW = ['', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
INF = 32767             # documented MAX_UNTIL_YEAR
TO_MAX = 32766          # documented MAX_TO_YEAR
NEG = -32767            # documented MIN_YEAR
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


# -- text ---------------------------------------------------------------

def num(v):
    return v if isinstance(v, (str, SymStr)) else fmt(v)


def rule_line(name, frm, to, mon, on='1', at='2:00', save='0', letter='-',
              sep='\t'):
    mon = MONTHS[mon] if isinstance(mon, int) else mon
    f = ['Rule', name, num(frm), num(to), '-', mon, num(on), num(at),
         num(save), letter]
    out = []
    for i, x in enumerate(f):
        if i:
            out.append(sep)
        out.append(x)
    return cat(*out)


def zone_lines(name, eras):
    """eras: (stdoff, rules, format[, until])"""
    out = []
    for i, e in enumerate(eras):
        body = [num(e[0]), '\t', num(e[1]), '\t', e[2]]
        if len(e) > 3 and e[3] is not None:
            body += ['\t', num(e[3])]
        head = cat('Zone\t', name, '\t') if i == 0 else '\t\t\t'
        out.append(cat(head, *body))
    return out


def link_line(target, name):
    return cat('Link\t', target, '\t', name)


def until(year, mon=None, day=None, time=None):
    p = [num(year)]
    if mon is not None:
        p += [' ', MONTHS[mon] if isinstance(mon, int) else mon]
    if day is not None:
        p += [' ', num(day)]
    if time is not None:
        p += [' ', num(time)]
    return cat(*p)


def hms(sign, h, m=None, s=None):
    """Text of a time; sign is a Python bool (negative)."""
    p = ['-' if sign else '', fmt(h)]
    if m is not None:
        p += [':', fmt(m, '02')]
    if s is not None:
        p += [':', fmt(s, '02')]
    return cat(*p)


# -- calendar ------------------------------------------------------------

def leap(y):
    """May split the year into its calendar classes."""
    return cal_class(y)[0]


def lookup(table, i):
    """table[i] (0-based) without forking."""
    if isinstance(i, int):
        return table[i]
    r = table[-1]
    for k in range(len(table) - 2, -1, -1):
        r = If(i == k, table[k], r)
    return r


def days_in(y, m):
    if isinstance(m, int) and m != 2:
        return DIM[m - 1]
    d = lookup(DIM, m - 1)
    return If(And(m == 2, leap(y)), 29, d)


def weekday(y, m, d):
    """1=Monday..7=Sunday; splits the year into its calendar classes."""
    lp, j = cal_class(y)
    before = lookup([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334],
                    m - 1)
    n = before + (If(m > 2, 1, 0) if lp else 0) + d - 1
    return (j + n) % 7 + 1


def day_expr(y, m, kind, dow, n):
    """(year, month, day) denoted by an ON/UNTIL day expression.

    kind: 'num' | 'last' | 'ge' | 'le'."""
    if kind == 'num':
        return y, m, n
    dim = days_in(y, m)
    if kind == 'last':
        d = dim - (weekday(y, m, dim) - dow) % 7
        return y, m, d
    if kind == 'ge':
        d = n + (dow - weekday(y, m, n)) % 7
        over = d > dim
        return (If(And(over, m == 12), y + 1, y),
                If(over, If(m == 12, 1, m + 1), m),
                If(over, d - dim, d))
    d = n - (weekday(y, m, n) - dow) % 7
    under = d < 1
    pm = If(m == 1, 12, m - 1)
    pdim = If(pm == 2, If(leap(y), 29, 28), lookup(DIM, pm - 1))
    return (If(And(under, m == 1), y - 1, y), If(under, pm, m),
            If(under, d + pdim, d))


# -- arithmetic ----------------------------------------------------------

def sgn(neg, v):
    return -v if neg else v


def trunc0(v, g):
    """v truncated toward zero to a multiple of g."""
    return If(v >= 0, (v // g) * g, -((-v // g) * g))


def between(v, lo, hi):
    return And(lo <= v, v <= hi)


def lex_lt(a, b):
    """a < b lexicographically."""
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = Or(x < y, And(x == y, r))
    return r


def lex_le(a, b):
    return Not(lex_lt(b, a))


def ge_all(xs, x):
    return And(*[x >= y for y in xs])
