"""C04: UNTIL day expressions resolve to the right calendar date."""
from harness.ctx import *
from harness.ctx import codes
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('UNTIL years 1600..2400 (one Gregorian cycle and both ends), every '
          'month, every weekday, every day number 0..35 with each of the four '
          'expression kinds; arbitrary printable expression texts of length '
          '1..4 (thorough 1..7)')
OUTSIDE = 'years outside 1600..2400, longer expression texts'
COVERS = ['num', 'last', 'ge', 'le', 'ge-next-month', 'le-prev-month',
          'leap-day', 'not-emitted', 'year-cross', 'text-emitted',
          'text-rejected', 'invalid-number', 'later-era']


def run(cx, y, mon, day, lead=0):
    """Zone with an era that ends on the expression; lead earlier eras."""
    es = []
    for i in range(lead):
        es.append((i + 1, '-', 'X%d' % i, until(y - lead - 2 + i)))
    es.append(('5:00', '-', 'E', until(y, mon, day, '2:00')))
    es.append(('6:00', '-', 'F'))
    res = run_main(cx, zone_lines('Z/A', es),
                   default_opts('complete', 1500, 2500))
    got = db.eras(res, 'Z/A')
    if got is None:
        return None
    if len(got) != lead + 2:
        cx.fail('%d eras' % len(got))
        return None
    e = got[lead]
    return e['until_year'], e['until_month'], e['until_day']


def expr(kind, dow, n):
    if kind == 'num':
        return fmt(n)
    if kind == 'last':
        return 'last' + DOW[dow]
    return cat(DOW[dow], '>=' if kind == 'ge' else '<=', fmt(n))


def judge(cx, got, y, mon, kind, dow, n):
    dim = days_in(y, mon)
    valid = True if kind == 'last' else between(n, 1, dim)
    ry, rm, rd = day_expr(y, mon, kind, dow, n)
    if got is None:
        cx.check(Not(And(valid, ry == y)),
                 'a valid UNTIL day is not emitted')
        cx.cover('not-emitted')
        cx.cover('year-cross', And(valid, ry != y))
        if kind != 'last':
            cx.cover('invalid-number', Not(valid))
        return
    gy, gm, gd = got
    cx.check(valid, 'a day that does not exist is emitted')
    cx.check(Implies(valid, And(gy == ry, gm == rm, gd == rd)),
             'UNTIL date differs')
    cx.cover(kind)
    if kind == 'ge':
        cx.cover('ge-next-month', And(valid, rm != mon))
    if kind == 'le':
        cx.cover('le-prev-month', And(valid, rm != mon))
    cx.cover('leap-day', And(rm == 2, rd == 29))


def shaped(cx, kind, mon, dows, lead=0):
    y = cx.int('y', 1600, 2400)
    dow = cx.choice('dow', dows) if kind != 'num' else 0
    n = cx.int('n', 0, 35) if kind != 'last' else 0
    got = run(cx, y, mon, expr(kind, dow, n), lead)
    judge(cx, got, y, mon, kind, dow, n)
    if lead and got is not None:
        cx.cover('later-era')


def read_expr(cs):
    """Reads an expression text; forks.  None when it is not one."""
    def digits(xs):
        if not xs:
            return None
        v = 0
        for c in xs:
            if not And(48 <= c, c <= 57):
                return None
            v = v * 10 + (c - 48)
        return v

    def name(xs):
        if len(xs) != 3:
            return None
        for i in range(1, 8):
            if And(*[x == ord(c) for x, c in zip(xs, DOW[i])]):
                return i
        return None

    v = digits(cs)
    if v is not None:
        return 'num', 0, v
    if len(cs) == 7 and And(*[a == ord(b) for a, b in zip(cs, 'last')]):
        d = name(cs[4:])
        return None if d is None else ('last', d, 0)
    if len(cs) >= 6:
        d = name(cs[:3])
        if d is None or not (cs[4] == 61):
            return None
        k = 'ge' if cs[3] == 62 else 'le' if cs[3] == 60 else None
        v = digits(cs[5:])
        if k is None or v is None:
            return None
        return k, d, v
    return None


def freetext(cx, n, mon, pre=''):
    y = cx.int('y', 1999, 2030)
    text = cat(pre, cx.text('t', n, exclude='#'))
    got = run(cx, y, mon, text)
    r = read_expr(codes(text))
    if r is None:
        cx.check(got is None, 'text that is no day expression is emitted')
        cx.cover('text-rejected')
        return
    judge(cx, got, y, mon, *r)
    if got is not None:
        cx.cover('text-emitted')


def jobs(tier):
    out = []
    groups = [(1, 4, 7)] if tier == 'quick' else [(1,), (2,), (3,), (4,),
                                                  (5,), (6,), (7,)]
    for mon in range(1, 13):
        for kind in ('num', 'last', 'ge', 'le'):
            for g in groups if kind != 'num' else [(0,)]:
                out.append(Job('%s-%s-%s' % (kind, MONTHS[mon], g[0]),
                               shaped, kind=kind, mon=mon, dows=list(g)))
    for kind in ('num', 'last', 'ge', 'le'):
        out.append(Job('lead-' + kind, shaped, kind=kind, mon=2, dows=[7],
                       lead=2))
    for n in range(1, (4 if tier == 'quick' else 7) + 1):
        for mon in (2, 3):
            out.append(Job('text-%d-%s' % (n, MONTHS[mon]), freetext, n=n,
                           mon=mon))
    for pre in ('Sun>=', 'Sun<=', 'last', 'Sun'):
        for n in (1, 2, 3):
            out.append(Job('text-%s%d' % (pre, n), freetext, n=n, mon=3,
                           pre=pre))
    return out
