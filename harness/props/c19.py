"""C19: generated eras have strictly increasing UNTIL and end open."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('zones of 1..4 eras with two or three symbolic UNTIL date-times '
          '(year 1990..2045, three months, any day, hour, minute, second, day '
          'expressions, omitted fields), final era open or not; windows '
          '2000..2030 and with a symbolic end; strict and not; the three '
          'scopes')
OUTSIDE = ('UNTIL times past 24:00 that overlap the next day, and different '
           'time suffixes, are ordered as written; two day expressions in '
           'one zone')
COVERS = ['increasing', 'equal', 'decreasing', 'same-day', 'closed-inside',
          'closed-outside', 'generated', 'removed', 'month-only', 'rounded',
          'first-era-out']


MONTHSET = [1, 2, 11]


def mon(cx, n):
    return cx.choice(n, MONTHSET)


def point(cx, n, form):
    """(text, (year, month, day, seconds)) of an UNTIL."""
    y = cx.int(n + 'y', 1990, 2045)
    if form == 'y':
        return until(y), (y, 1, 1, 0)
    if form == 'ym':
        m = mon(cx, n + 'm')
        return until(y, m), (y, m, 1, 0)
    if form == 'Y':
        # one year, all other fields
        m = 7
        d = cx.int(n + 'd', 1, 31)
        h = cx.int(n + 'h', 0, 24)
        k = cx.int(n + 'n', 28, 32)
        s = cx.int(n + 's', 0, 59)
        return (until(2005, m, d, hms(False, h, k, s)),
                (2005, m, d, h * 3600 + k * 60 + s))
    if form == 'last':
        m = cx.choice(n + 'm', [3, 10])
        y = cx.forked(n + 'Y', 2004, 2006)
        d = day_expr(y, m, 'last', 7, 0)
        return until(y, m, 'lastSun'), (y, m, d[2], 0)
    m = mon(cx, n + 'm')
    d = cx.int(n + 'd', 1, 28)
    if form == 'ymd':
        return until(y, m, d), (y, m, d, 0)
    h = cx.int(n + 'h', 0, 24)
    return until(y, m, d, hms(False, h)), (y, m, d, h * 3600)


def increasing(ps):
    return And(*[lex_lt(a, b) for a, b in zip(ps, ps[1:])])


def check(cx, es):
    """What is emitted."""
    fields = ('until_year', 'until_month', 'until_day',
              'until_seconds_truncated')
    ps = [tuple(e[f] for f in fields) for e in es]
    cx.check(increasing(ps), 'UNTIL of the generated eras do not increase')
    cx.check(ps[-1][0] == INF, 'the final generated era is not open')
    for p in ps[:-1]:
        cx.check(p[0] != INF, 'an era before the last is open')
    cx.cover('generated', len(es) > 1)


def eras(cx, scope, forms, tail, strict, uy=None):
    end = 2030 if uy is None else cx.int('until', 2010, uy)
    pts, src = [], []
    for i, f in enumerate(forms):
        t, p = point(cx, 'u%d' % i, f)
        pts.append(p)
        src.append(('%d:00' % i, '-', 'ABCD'[i], t))
    if tail:
        src.append(('9:00', '-', 'Z'))
    L = zone_lines('Z/A', src) + zone_lines('Z/B', [('0', '-', 'X')])
    res = run_main(cx, L, default_opts(scope, 2000, end, strict=strict,
                                       nostrict=not strict))
    es = db.eras(res, 'Z/A')
    # the eras whose UNTIL matters
    inside = pts
    inc = increasing(pts)
    closed_in = And(not tail, inc, And(pts[-1][0] <= end + 1,
                                  pts[-1][0] >= 1999))
    if es is not None:
        check(cx, es)
        cx.check(Not(closed_in), 'a zone that ends inside the window is '
                 'emitted')
        # every pair of neighbours inside the window increases
        for a, b in zip(pts, pts[1:]):
            cx.check(Implies(And(a[0] >= 1999, b[0] >= 1999,
                                 a[0] <= end + 1, b[0] <= end + 1),
                             lex_lt(a, b)),
                     'a zone with UNTIL out of order is emitted')
        cx.cover('increasing', inc)
        cx.cover('same-day', Or(*[And(a[0] == b[0], a[1] == b[1],
                                      a[2] == b[2])
                                  for a, b in zip(pts, pts[1:])]))
        cx.cover('closed-outside', And(not tail, pts[-1][0] > end + 1))
        cx.cover('month-only', 'ym' in forms)
        cx.cover('first-era-out', pts[0][0] < 1999)
    else:
        simple = scope != 'basic' or all(f == 'y' for f in forms)
        if simple and tail and strict and 'Y' not in forms:
            cx.check(Not(inc), 'a valid zone is not emitted')
        cx.cover('removed')
        cx.cover('equal', Or(*[And(*[x == y for x, y in zip(a, b)])
                               for a, b in zip(pts, pts[1:])]))
        cx.cover('decreasing', Or(*[lex_lt(b, a)
                                    for a, b in zip(pts, pts[1:])]))
        cx.cover('closed-inside', closed_in)


def rounded(cx, scope):
    """Truncation makes two different times equal."""
    def t(n):
        h = cx.int(n + 'h', 2, 3)
        m = cx.int(n + 'm', 0, 59)
        s = cx.int(n + 's', 0, 59)
        return hms(False, h, m, s), h * 3600 + m * 60 + s
    a, b = t('a'), t('b')
    g = cx.choice('g', [60, 900, 1])
    L = zone_lines('Z/A', [('1:00', '-', 'A', until(2005, 3, 4, a[0])),
                           ('2:00', '-', 'B', until(2005, 3, 4, b[0])),
                           ('3:00', '-', 'C')])
    res = run_main(cx, L, default_opts(scope, 2000, 2030, nostrict=True,
                                       until_at_granularity=g))
    es = db.eras(res, 'Z/A')
    if es is not None:
        check(cx, es)
        cx.cover('rounded', b[1] - a[1] < 2 * g)
    else:
        cx.check(trunc0(a[1], g) >= trunc0(b[1], g),
                 'a valid zone is not emitted')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(scope, forms, tail, strict=True, uy=None):
        out.append(Job('%s-%s-%d%s%s' % (scope, '.'.join(forms), tail,
                                         '' if strict else '-lax',
                                         uy or ''), eras, scope=scope,
                       forms=forms, tail=tail, strict=strict, uy=uy))
    for sc in ('basic', 'extended', 'complete'):
        for tail in (True, False):
            add(sc, ('y', 'y'), tail)
            add(sc, ('y', 'y', 'y'), tail)
            add(sc, ('y',), tail, True, 2040)
            add(sc, ('y', 'y'), tail, False, 2040)
    for sc in ('extended', 'complete'):
        for tail in (True, False):
            add(sc, ('ymd', 'y'), tail)
            add(sc, ('ym', 'ymd'), tail)
            add(sc, ('ymdh', 'y'), tail)
            add(sc, ('Y', 'Y'), tail, False)
            add(sc, ('last', 'ym'), tail)
            add(sc, ('y', 'last'), tail)
            if not q:
                add(sc, ('ymdh', 'ymdh'), tail)
                add(sc, ('y', 'ymd', 'ym'), tail, False)
                add(sc, ('y', 'y', 'y', 'y'), tail)
                add(sc, ('Y', 'Y', 'Y'), tail, False)
                add(sc, ('ym', 'ym', 'y'), tail, True, 2040)
        out.append(Job('rounded-' + sc, rounded, scope=sc))
    return out
