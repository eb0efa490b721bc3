"""C02: rules inside the requested years give the same SAVE and LETTER."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('policies of 1..4 rules (thorough 1..5) with symbolic FROM and TO '
          'years 1700..2500 (only, max or a year), symbolic or weekday ON '
          'days (with two standard rules of one first year also every kind of '
          'weekday expression), every placement of standard and daylight rules given by the '
          'shape, symbolic requested years; every date of the window; one '
          'policy of 80 rules (thorough 180) in windows of 1974..1992')
OUTSIDE = ('more rules; two transitions of a policy on one and the same day; '
           'for weekday ON days the dates are the 15th of a month')
COVERS = ['lower-dropped', 'upper-dropped', 'prior-kept', 'before-first',
          'max', 'single', 'refused', 'in-transition-year', 'first-year',
          'last-year', 'same-month', 'lax-anchor',
          'long-policy', 'weekday-order', 'weekday-first']
SAVES = {'S': ('0', 0), 'D': ('1:00', 3600), 'N': ('-1:00', -3600),
         'H': ('0:30', 1800)}
LETTERS = 'ABCDEFG'


def effective(t, rules, first):
    """Value of the rule in effect at t (year, month, day), else first.

    rules: (from, to, month, day, value)"""
    ty, tm, td = t
    best, val = -(10 ** 9), first
    for frm, to, m, d, v in rules:
        md = m * 32 + d
        c = If(md <= tm * 32 + td, ty, ty - 1)
        c = If(c > to, to, c)
        k = c * 512 + md
        better = And(c >= frm, k > best)
        val = If(better, v, val)
        best = If(better, k, best)
    return val, best


def shaped(cx, kinds, months, days, scope, tos, win='sym'):
    n = len(kinds)
    if win == 'sym':
        lo = {'basic': 1980, 'extended': 1974, 'complete': 1800}[scope]
        hi = 2300 if scope == 'complete' else 2225
        start = cx.int('start', lo, hi)
        end = cx.int('until', lo, hi)
        cx.assume(start <= end)
    else:
        start, end = win
    lines, src = [], []
    for i in range(n):
        frm = cx.int('f%d' % i, 1700, 2500)
        if scope == 'basic':
            cx.assume(between(frm, start - 4, end + 2))
        if tos[i] == 'max':
            to, txt = TO_MAX, 'max'
        elif tos[i] == 'only':
            to, txt = frm, 'only'
        elif isinstance(tos[i], int):
            to = frm + tos[i]
            txt = fmt(to)
        else:
            to = cx.int('o%d' % i, 1700, 2500)
            cx.assume(frm <= to)
            txt = fmt(to)
        if days[i] == 'n':
            d = cx.int('d%d' % i, 1, 28)
            if months[i] == 1 and scope == 'basic':
                cx.assume(d > 1)
            dt = fmt(d)
        elif isinstance(days[i], int):
            d, dt = days[i], fmt(days[i])
        else:
            dt = days[i]
            d = 28 if dt.startswith('last') else 4
        src.append((frm, to, months[i], d, kinds[i], LETTERS[i]))
        lines.append(rule_line('P', frm, txt, months[i], dt, '2:00',
                               SAVES[kinds[i]][0], LETTERS[i]))
    # no two transitions of the same day
    for i in range(n):
        for j in range(i):
            if months[i] == months[j]:
                cx.assume(Or(src[i][3] != src[j][3],
                             src[i][1] < src[j][0], src[j][1] < src[i][0]))
    lines += zone_lines('Z/A', [('1:00', 'P', 'F%sT')])
    res = run_main(cx, lines, default_opts(scope, start, end))
    rs = db.rules(res, 'P')
    over = [And(r[0] <= end, r[1] >= start - 1) for r in src]
    if rs is None:
        must = Or(*[o for o, r in zip(over, src) if r[4] == 'S'])
        if scope == 'basic':
            # two rules of one month in one year are refused
            for i in range(n):
                for j in range(i):
                    if months[i] == months[j]:
                        must = And(must, Or(src[i][1] < src[j][0],
                                            src[j][1] < src[i][0]))
        cx.check(Not(must), 'a valid policy is not generated')
        cx.cover('refused')
        return
    # date in the window
    ty = cx.int('t.y', 1700, 2500)
    cx.assume(between(ty, start - 1, end))
    tm = cx.int('t.m', 1, 12)
    plain = all(d == 'n' or isinstance(d, int) for d in days)
    td = cx.int('t.d', 1, 31) if plain else 15
    t = (ty, tm, td)
    # expected
    std = [(r[0] * 512 + r[2] * 32 + r[3], i) for i, r in enumerate(src)
           if r[4] == 'S']
    if not std:
        cx.fail('generated without a standard rule')
        return
    first, k0 = std[0][1], std[0][0]
    for k, i in std[1:]:
        first = If(k < k0, i, first)
        k0 = If(k < k0, k, k0)
    want, kb = effective(t, [(r[0], r[1], r[2], r[3], 10 + i)
                             for i, r in enumerate(src)], first)
    # generated
    gen = []
    nr = 0
    for r in rs:
        l = r['letter']
        i = [k for k in range(n) if l == LETTERS[k]]
        if len(i) != 1:
            cx.fail('unknown letter %s' % (l,))
            return
        i = i[0]
        anchor = db.is_anchor(r)
        if not anchor:
            nr += 1
            cx.check(r['delta_seconds'] == SAVES[kinds[i]][1],
                     'SAVE of a rule changed')
            cx.check(r['in_month'] == months[i], 'month of a rule changed')
        elif not (r['delta_seconds'] == 0):
            cx.fail('anchor is not standard time')
        d = src[i][3]
        if not anchor and plain:
            cx.check(And(r['on_day_of_week'] == 0,
                         r['on_day_of_month'] == d), 'day of a rule changed')
        if anchor:
            d = 1
        gen.append((r['from_year'], r['to_year'],
                    r['in_month'], d,
                    SAVES[kinds[i]][1] * 100 + i if not anchor else i))
    got, gk = effective(t, gen, -777777)
    cx.check(got != -777777, 'no rule is in effect')
    wv = want
    # value of an expected index
    exp = SAVES['S'][1] * 100
    for i in range(n):
        exp = If(want == 10 + i, SAVES[kinds[i]][1] * 100 + i, exp)
        exp = If(want == i, i, exp)
    cx.check(got == exp, 'another SAVE or LETTER is in effect')
    if n == 1:
        cx.cover('single')
    cx.cover('before-first', want < 10)
    if nr < n and n > 1:
        cx.cover('lower-dropped', Or(*[And(r[1] < start - 1) for r in src]))
        cx.cover('upper-dropped', Or(*[r[0] > end for r in src]))
    if nr and n > 1:
        cx.cover('prior-kept', Or(*[And(r[1] < start - 1, want == 10 + i)
                                    for i, r in enumerate(src)]))
    if 'max' in tos:
        cx.cover('max')
    if len(set(months)) < n:
        cx.cover('same-month', want >= 10)
    for i, r in enumerate(src):
        cx.cover('in-transition-year', And(r[0] <= ty, ty <= r[1],
                                           want == 10 + i))
    cx.cover('first-year', ty == start - 1)
    cx.cover('last-year', ty == end)


DOW = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']


def expr_text(e):
    k, w, n = e
    if k == 'num':
        return fmt(n)
    if k == 'last':
        return 'last' + DOW[w - 1]
    return DOW[w - 1] + {'ge': '>=', 'le': '<='}[k] + fmt(n)


def decoded(w, n):
    """Kind of the documented (weekday, day) encoding."""
    if w == 0:
        return ('num', 0, n)
    if n == 0:
        return ('last', w, 0)
    if n > 0:
        return ('ge', w, n)
    return ('le', w, -n)


def weekdays(cx, recs, scope, gap):
    """recs: (kind, month, expr) of rules that all begin in one year (the
    first one gap years later)."""
    f = cx.int('f', 2002, 2060)
    lines, src = [], []
    for i, (k, m, e) in enumerate(recs):
        if e[0] == 'num' and e[2] is None:
            e = ('num', 0, cx.int('d%d' % i, 1, 28))
        frm = f + gap if i == 0 else f
        src.append((frm, m, e, k))
        lines.append(rule_line('P', fmt(frm), 'max' if i % 2 else fmt(f + 9),
                               m, expr_text(e), '2:00', SAVES[k][0],
                               LETTERS[i]))
    lines += zone_lines('Z/A', [('1:00', 'P', 'F%sT')])
    res = run_main(cx, lines, default_opts(scope, 2001, 2070))
    rs = db.rules(res, 'P')
    if rs is None:
        cx.check(False, 'a valid policy is not generated')
        return

    def key(frm, m, e):
        y, mm, d = day_expr(frm, m, *e)
        return y * 512 + mm * 32 + d
    keys = [key(a, m, e) for a, m, e, k in src]
    for i in range(len(keys)):
        for j in range(i):
            cx.assume(keys[i] != keys[j])
    first, k0 = None, None
    for i, s in enumerate(src):
        if s[3] == 'S':
            first = i if k0 is None else If(keys[i] < k0, i, first)
            k0 = keys[i] if k0 is None else If(keys[i] < k0, keys[i], k0)
    ty = f + cx.choice('t.y', [-1, 0])
    tk = ty * 512 + cx.int('t.m', 1, 12) * 32 + cx.int('t.d', 1, 31)

    def at(items, val):
        best = -(10 ** 9)
        for k, v in items:
            better = And(k <= tk, k > best)
            val, best = If(better, v, val), If(better, k, best)
        return val
    want = at([(keys[i], SAVES[s[3]][1] * 100 + i)
               for i, s in enumerate(src)], first)
    gen, dflt = [], None
    for r in rs:
        i = [k for k in range(len(src)) if r['letter'] == LETTERS[k]]
        if len(i) != 1:
            cx.fail('unknown letter')
            return
        v = r['delta_seconds'] * 100 + i[0]
        if db.is_anchor(r):
            dflt = v
            continue
        e = decoded(r['on_day_of_week'], r['on_day_of_month'])
        gen.append((key(r['from_year'], r['in_month'], e), v))
    if dflt is None:
        cx.fail('no anchor')
        return
    cx.check(dflt == first, 'letter of the earliest standard rule')
    cx.check(at(gen, dflt) == want, 'another SAVE or LETTER is in effect '
             '(weekday rules)')
    cx.cover('weekday-order', first != 0)
    cx.cover('weekday-first', first == 0)


def lax_anchor(cx, scope, order):
    """A SAVE that truncates to zero is not standard time."""
    lim = 59 if scope == 'complete' else 899
    s = cx.int('save', 1, lim)
    f = [cx.int('f%d' % i, 1990, 1999) for i in range(2)]
    L = [rule_line('P', f[0], 'max', 3, 8, '2:00', hms(False, 0, s // 60,
                                                      s % 60), 'A'),
         rule_line('P', f[1], 'max', 5, 9, '2:00', '0', 'B'),
         rule_line('P', 1995, 'max', 9, 9, '2:00', '1:00', 'C')]
    L = [L[i] for i in order] + zone_lines('Z/A', [('1:00', 'P', 'F%sT')])
    res = run_main(cx, L, default_opts(scope, 2001, 2030, nostrict=True))
    rs = db.rules(res, 'P')
    if rs is None:
        return
    an = [r for r in rs if db.is_anchor(r)]
    cx.check(len(an) == 1, 'one anchor')
    cx.check(eq(an[0]['letter'], 'B'),
             'letter before the first transition (truncated SAVE)')
    cx.cover('lax-anchor', f[0] < f[1])


def many(cx, scope, n):
    """A policy with two rules a year for n years."""
    start = cx.int('start', 1974, 1976)
    end = cx.int('until', 1990, 1992)
    L, src = [], []
    for i in range(n):
        y = 1995 - n + 1 + i
        for m, k, sv in ((3, 'D', '1:00'), (10, 'S', '0')):
            src.append((y, y, m, 8, '%s%d' % (k, i), sv))
            L.append(rule_line('P', y, 'only', m, 8, '2:00', sv,
                               src[-1][4]))
    L += zone_lines('Z/A', [('1:00', 'P', 'F%sT')])
    res = run_main(cx, L, default_opts(scope, start, end))
    rs = db.rules(res, 'P')
    if rs is None:
        cx.check(False, 'a valid policy is not generated')
        return
    ty = cx.int('t.y', 1973, 1992)
    cx.assume(between(ty, start - 1, end))
    t = (ty, cx.int('t.m', 1, 12), cx.int('t.d', 1, 31))
    want, _ = effective(t, [r[:4] + (i,) for i, r in enumerate(src)], -1)
    at = {r[4]: i for i, r in enumerate(src)}
    got, _ = effective(t, [(r['from_year'], r['to_year'], r['in_month'],
                            r['on_day_of_month'], at[r['letter']])
                           for r in rs if not db.is_anchor(r)], -1)
    cx.check(got == want, 'another rule is in effect (long policy)')
    cx.cover('long-policy', want > 0)


def jobs(tier):
    out = []
    for scope in ('complete', 'extended'):
        for order in ((0, 1, 2), (2, 1, 0)):
            out.append(Job('lax-anchor-%s-%d' % (scope, order[0]), lax_anchor,
                           scope=scope, order=order))
        for n in ((40,) if tier == 'quick' else (40, 90)):
            out.append(Job('many-%s-%d' % (scope, n), many, scope=scope,
                           n=n))

    def wk(*recs, gap=0, scope='complete'):
        nm = '+'.join('%s%d%s' % (k, m, ''.join(map(str, e)))
                      for k, m, e in recs)
        out.append(Job('wk-%s-%d-%s' % (nm, gap, scope), weekdays,
                       recs=list(recs), gap=gap, scope=scope))
    num = ('num', 0, None)
    last, ge, le = ('last', 7, 0), ('ge', 3, 10), ('le', 6, 20)
    dst = ('D', 7, ('num', 0, 5))
    for e in (last, ge, le):
        wk(('S', 3, e), ('S', 3, num), dst)
        wk(('S', 5, num), ('S', 5, e), ('D', 5, ('num', 0, 29)),
           scope='extended')
    wk(('S', 3, ('le', 7, 12)), ('S', 3, ('ge', 2, 7)), dst)
    wk(('S', 3, ('ge', 7, 29)), ('S', 4, ('num', 0, 3)), dst)
    wk(('S', 3, ('le', 7, 3)), ('S', 2, ('num', 0, 27)), dst)
    wk(('S', 2, last), ('S', 2, ('ge', 1, 20)), dst)
    wk(('S', 3, last), ('S', 10, last), dst, gap=1)
    if tier != 'quick':
        for a in (last, ge, le, ('ge', 1, 26), ('le', 5, 5)):
            for b in (num, last, ge, le):
                for m in (2, 3, 6):
                    wk(('S', m, a), ('S', m, b), dst)
                    wk(('S', m, a), ('S', m + 1, b), dst, gap=1)

    def add(kinds, months, tos, days=None, scope='complete', win='sym'):
        days = days or ['n'] * len(kinds)
        nm = '%s-%s-%s-%s-%s%s' % (
            kinds, '.'.join(map(str, months)), '.'.join(str(t)[:2] for t in tos),
            '.'.join(str(d) for d in days), scope,
            '' if win == 'sym' else '-w')
        out.append(Job(nm, shaped, kinds=kinds, months=months, days=days,
                       scope=scope, tos=tos, win=win))
    for k in ('S', 'D'):
        for t in ('y', 'max', 'only'):
            add(k, [6], [t])
            add(k, [1], [t], scope='extended')
    for k in ('SD', 'DS', 'SS', 'DD', 'DN', 'HS'):
        for m in ([3, 10], [11, 4], [6, 6]):
            for t in (['y', 'y'], ['max', 'only'], ['y', 'max']):
                for scope in ('complete', 'extended'):
                    if scope == 'extended' and m[0] != 3:
                        continue
                    add(k, m, t, scope=scope)
    for k in ('SDS', 'DSD', 'DSS', 'DDS', 'SNH'):
        for m in ([3, 10, 6], [10, 4, 4], [12, 1, 6]):
            for t in (['y', 'y', 'y'], ['only', 'max', 'y']):
                add(k, m, t, days=[8, 'n', 15])
    for k in ('DSDS', 'SDDS'):
        add(k, [3, 10, 4, 9], ['y', 'only', 'max', 'max'], days=[1, 31, 2, 30])
    for d in (['lastSun', 4], [5, 'lastSun'], ['Sun>=1', 20]):
        add('DS', [3, 10], ['y', 'max'], days=d, scope='extended')
    add('SDS', [3, 10, 5], ['y', 'y', 'max'], days=['Mon>=1', 9, 20],
        win=(2000, 2050))
    if tier != 'quick':
        for d in (['lastSun', 'Sun>=1'], ['Sun>=1', 'lastSun']):
            add('DS', [3, 10], ['y', 'max'], days=d, scope='extended')
            add('SDS', [3, 10, 5], ['y', 'y', 'max'], days=d + ['Mon>=1'])
    for k in ('DS', 'SD'):
        for m in ([3, 10], [1, 6], [5, 5]):
            add(k, m, [3, 2], days=['n', 'n'], scope='basic',
                win=(2000, 2004))
    add('DSS', [3, 10, 3], [1, 3, 0], days=[8, 9, 20], scope='basic',
        win=(2001, 2003))
    if tier != 'quick':
        for k in ('DSDS', 'SDDS', 'DSND', 'HSSD'):
            for m in ([3, 10, 4, 9], [6, 6, 1, 12], [2, 2, 3, 3]):
                for t in (['y', 'y', 'y', 'y'], ['only', 'y', 'max', 'y']):
                    add(k, m, t, days=[7, 'n', 15, 20])
        for k in ('DSDSD', 'SDSDS'):
            add(k, [3, 10, 4, 9, 6], ['y', 'only', 'y', 'max', 'only'],
                days=[1, 31, 2, 30, 5])
    return out
