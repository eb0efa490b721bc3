"""C20: basic scope only emits what the basic processor supports."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('zones of 2..3 eras, the first one or two closed by an UNTIL of any '
          'form (year; month 1..12; day 1..28; 0..24 h; any suffix; day '
          'expressions) in years 1990..2045, RULES "-", fixed or a policy; '
          'policies of 2..4 rules with FROM/TO years in ranges of up to 6 '
          'years around the window (or "max"), months 1..12, days 1..28 and '
          'day expressions; windows of 4..31 years')
OUTSIDE = ('two transitions are in the same month when their IN months are; a '
           'day expression that moves one into the neighbouring month is not '
           'followed; an UNTIL spelled "2005 Jan 1 0:00" may be refused or '
           'generated')
COVERS = ['until-year', 'until-month', 'until-day', 'until-time', 'jan-1',
          'suffix', 'until-outside', 'fixed', 'fixed-outside', 'generated',
          'removed', 'same-month', 'two-ranges-meet', 'months-differ',
          'years-differ', 'jan-1-rule', 'dec-31', 'jan-day-expr',
          'conflict-third', 'max', 'two-zones']

CLOSE = 2031            # last UNTIL year that matters for a window to 2030


def check_eras(cx, es):
    for e in es:
        if e['until_year'] is not INF and e['until_year'] != INF:
            cx.check(And(e['until_month'] == 1, e['until_day'] == 1,
                         e['until_seconds'] == 0,
                         e['until_seconds_truncated'] == 0),
                     'an era of a generated zone does not end at the start '
                     'of a year')
        cx.check(eq(e['until_time_suffix'], 'w'),
                 'an UNTIL time is not wall time')
        cx.check(And(e['era_delta_seconds'] == 0,
                     e['era_delta_seconds_truncated'] == 0),
                 'an era has a fixed DST amount')


def check_rules(cx, rs, lo, hi):
    """lo..hi: years of the window, inclusive."""
    rs = [r for r in rs if not db.is_anchor(r)]
    for i, r in enumerate(rs):
        cx.check(Not(And(r['in_month'] == 1, r['on_day_of_month'] == 1)),
                 'a transition on January 1')
        cx.check(Not(And(r['in_month'] == 1, r['on_day_of_week'] != 0,
                         r['on_day_of_month'] < 0,
                         r['on_day_of_month'] >= -7)),
                 'a transition that can fall on January 1')
        for s in rs[i + 1:]:
            both = And(r['in_month'] == s['in_month'],
                       r['from_year'] <= s['to_year'],
                       s['from_year'] <= r['to_year'],
                       r['from_year'] <= hi, s['from_year'] <= hi,
                       r['to_year'] >= lo, s['to_year'] >= lo)
            cx.check(Not(both), 'two transitions in one month')


FORMS = {'y': 'until-year', 'm': 'until-month', 'd': 'until-day',
         't': 'until-time', 'x': 'suffix', 'e': 'until-day', 'j': 'jan-1'}


def closing(cx, n, form, lo=1990, hi=2045):
    """(text, year, simple or None when either is fine)."""
    y = cx.int(n + 'y', lo, hi)
    if form == 'y':
        return until(y), y, True
    if form == 'j':
        k = cx.choice(n + 'k', [(1,), (1, 1), (1, 1, '0:00'), (1, 1, '0'),
                                (1, 1, '0:00w')])
        return until(y, *k), y, None
    if form == 'e':
        m = cx.choice(n + 'm', [1, 3, 12])
        y = 2004 if lo < 2004 < hi else lo
        return until(y, m, cx.choice(n + 'e', ['lastSun', 'Sun>=1',
                                               'Sat<=9'])), y, False
    m = cx.forked(n + 'm', 1, 12)
    if form == 'm':
        cx.assume(m != 1)
        return until(y, m), y, False
    d = cx.int(n + 'd', 1, 28)
    if form == 'd':
        cx.assume(Or(m != 1, d != 1))
        return until(y, m, d), y, False
    if form == 'x':
        m, d = cx.choice(n + 'M', [(1, 1), (3, 5)])
        s = cx.choice(n + 's', ['s', 'u', 'g', 'z'])
        h = cx.int(n + 'h', 0, 3)
        return until(y, m, d, cat(hms(False, h), s)), y, False
    m = cx.choice(n + 'M', [1, 6])
    h = cx.int(n + 'h', 0, 24)
    mi = cx.int(n + 'n', 0, 59)
    cx.assume(h * 60 + mi <= 1440)
    cx.assume(Or(m != 1, d != 1, h * 60 + mi > 0))
    return until(y, m, d, hms(False, h, mi)), y, False


def zones(cx, forms, rules, tail=True):
    """forms: UNTIL forms of the closed eras; rules: RULES of all eras."""
    src, ys, simple = [], [], []
    for i, f in enumerate(forms):
        t, y, ok = closing(cx, 'u%d' % i, f)
        src.append((str(i), rules[i], 'ABC'[i], t))
        ys.append(y)
        simple.append(ok)
    for a, b in zip(ys, ys[1:]):
        cx.assume(a < b)
    src.append(('9', rules[-1], 'Z'))
    L = zone_lines('Z/A', src) + zone_lines('Z/B', [('0', '-', 'X')])
    res = run_main(cx, L, default_opts('basic', 2000, 2030))
    es = db.eras(res, 'Z/A')
    # what the zone needs: which eras are kept, and which of them are closed
    need, maybe = [], []
    for i in range(len(src)):
        prev_in = True if i == 0 else ys[i - 1] <= CLOSE
        if i < len(ys):
            # closed inside the window
            closed = And(ys[i] >= 1999, ys[i] <= CLOSE)
            if simple[i] is None:
                maybe.append(closed)
            elif not simple[i]:
                need.append(closed)
                cx.cover('until-outside', And(Not(closed), es is not None))
        kept = And(prev_in, True if i >= len(ys) else ys[i] >= 1999)
        if rules[i] != '-':
            need.append(kept)
            cx.cover('fixed', kept)
            cx.cover('fixed-outside', And(Not(kept), es is not None))
        if i < len(ys):
            cx.cover(FORMS[forms[i]], es is not None if simple[i] is not False
                     else es is None)
    need = Or(False, *need)
    if es is not None:
        check_eras(cx, es)
        cx.check(Not(need), 'a zone the basic processor does not support is '
                 'generated')
        cx.cover('generated')
    else:
        cx.check(Or(need, *maybe), 'a supported zone is not generated')
        cx.cover('removed')
    cx.check(db.zone(res, 'Z/B') is not None, 'Z/B is lost')


def policies(cx, spans, months, days, start=2000, until_=2004, two=False):
    """spans: (lo, hi) of FROM..TO of each rule, or (lo, hi, 'max').
    months, days: fixed values or (lo, hi)."""
    L, src = [], []
    for i, sp in enumerate(spans):
        f = cx.forked('f%d' % i, sp[0], sp[1])
        if len(sp) > 2:
            t, tt = TO_MAX, 'max'
        else:
            d = cx.forked('t%d' % i, 0, sp[1] - sp[0])
            if f + d > sp[1]:
                return
            t = f + d
            tt = t if d else 'only'
        m = months[i]
        if isinstance(m, tuple):
            m = cx.forked('m%d' % i, *m)
        d = days[i]
        if isinstance(d, tuple):
            d = cx.int('d%d' % i, *d)
        save = '0' if i % 2 == 0 else '1:00'
        L.append(rule_line('P', f, tt, m, d, '2:00', save, 'ABCD'[i]))
        src.append((f, t, m, d))
    L += zone_lines('Z/A', [('1:00', 'P', 'A%s')])
    if two:
        L += [rule_line('Q', 2000, 'max', 3, 'lastSun', '2:00', '0', 'S'),
              rule_line('Q', 2000, 'max', 10, 'lastSun', '2:00', '1:00', 'D')]
        L += zone_lines('Z/B', [('1:00', 'Q', 'A%s')])
    else:
        L += zone_lines('Z/B', [('0', '-', 'X')])
    res = run_main(cx, L, default_opts('basic', start, until_))
    z = db.zone(res, 'Z/A')
    bad = []
    for i, (f, t, m, d) in enumerate(src):
        if m == 1:
            one = d == 1 if not isinstance(d, str) else \
                d in ('Sun>=1', 'Sun<=7', 'Sun<=1', 'Sun<=4')
            bad.append(one)
            cx.cover('jan-1-rule', And(one, z is None))
            cx.cover('jan-day-expr', isinstance(d, str) and z is None)
        if m == 12 and isinstance(d, int):
            cx.cover('dec-31', d == 31 and z is not None)
        for j, (g, u, n, e) in enumerate(src[:i]):
            meet = f <= u and g <= t
            bad.append(m == n and meet)
            if m == n:
                cx.cover('same-month', meet and z is None)
                cx.cover('two-ranges-meet', (f == u or g == t) and t != u
                         and z is None)
                cx.cover('years-differ', not meet and z is not None)
            elif meet:
                cx.cover('months-differ', z is not None)
            if m == n and meet and i == 2:
                cx.cover('conflict-third', z is None)
    if z is not None:
        check_eras(cx, z['eras'])
        check_rules(cx, db.rules(res, 'P'), start - 1, until_)
        if 'max' in [s[-1] for s in spans]:
            cx.cover('max')
    else:
        # without a standard time rule there is no anchor
        reach = Or(*[And(s[0] <= until_, s[1] >= start - 1)
                     for s in src[::2]])
        cx.check(Or(Not(reach), *bad), 'a supported zone is not generated')
    if db.generated(res):
        cx.check(db.zone(res, 'Z/B') is not None, 'Z/B is lost')
        if two:
            check_rules(cx, db.rules(res, 'Q'), start - 1, until_)
            cx.cover('two-zones', z is None)


def jobs(tier):
    q = tier == 'quick'
    out = []

    def zn(forms, rules, **kw):
        out.append(Job('zone-%s-%s' % (forms, '.'.join(rules).replace(
            ':', '')), zones, forms=forms, rules=rules, **kw))

    def pol(nm, spans, months, days, **kw):
        out.append(Job('policy-' + nm, policies, spans=spans, months=months,
                       days=days, **kw))
    for f in 'ymdtxej':
        zn(f, ['-', '-'])
        for g in ('y' if q else 'yme'):
            if not (g == 'e' and f == 'e'):
                zn(g + f, ['-', '-', '-'])
                if g != f and 'e' not in (f, g):
                    zn(f + g, ['-', '-', '-'])
    for r in (['1:00', '-'], ['-', '1:00'], ['0:30', '-0:30']):
        zn('y', r)
    for r in (['1:00', '-', '-'], ['-', '2:00', '-'], ['-', '-', '-1:00']):
        zn('yy', r)
    for i, sp in enumerate([(2000, 2003), (1998, 2001), (2003, 2006)]):
        pol('2-%d' % i, [sp, sp], [5, (5, 6)], [3, (1, 28)])
    pol('spread', [(1997, 1999), (2003, 2005)], [7, (7, 8)], [1, 15])
    pol('meet', [(1999, 2002), (2002, 2004)], [7, 7], [1, 15])
    pol('meet2', [(2002, 2004), (1999, 2002)], [12, 12], [1, 31])
    pol('jan', [(2000, 2002), (2000, 2001)], [1, 6], [(1, 28), 4])
    pol('jan2', [(2000, 2001), (2000, 2002)], [6, 1], [4, (1, 28)])
    pol('dec', [(2000, 2002), (2000, 2001)], [(12, 12), (11, 12)], [31, 31])
    for i, d in enumerate(['Sun>=1', 'Sun<=7', 'Sun>=2', 'lastSun', 'Sun<=4',
                           'Sun<=8']):
        pol('jan-e%d' % i, [(2000, 2002), (2000, 2000)], [1, 6], [d, 4])
    pol('months', [(2000, 2001), (2000, 2001)], [(1, 12), (1, 12)],
        [(1, 28), (1, 28)])
    pol('three', [(2000, 2001), (2000, 2002), (2001, 2003)], [3, 10, (3, 10)],
        [8, 9, (2, 28)])
    pol('three-2', [(2000, 2001)] * 3, [5, 6, (5, 6)], [8, 9, (2, 28)],
        two=True)
    pol('same-3', [(2000, 2001)] * 3, [5, 5, 5], [8, 9, (10, 28)])
    pol('same-4', [(2000, 2001)] * 4, [5, 6, 5, 5], [8, 9, 10, (11, 28)])
    pol('max', [(2003, 2003, 'max'), (2001, 2004)], [3, (3, 4)], [8, 9])
    pol('max2', [(2000, 2000, 'max'), (2002, 2002, 'max')], [3, (2, 3)],
        [8, 9])
    if not q:
        for i, sp in enumerate([(2000, 2003), (1998, 2001), (2003, 2006)]):
            pol('2w-%d' % i, [sp, sp], [5, (4, 6)], [(1, 28), (1, 28)])
        pol('three-3', [(2000, 2002)] * 3, [5, 6, (5, 6)], [8, 9, (2, 28)],
            two=True)
        pol('wide', [(1996, 2004), (2000, 2008)], [5, (5, 6)], [1, 2])
        pol('four', [(2000, 2001), (2000, 2001), (2001, 2002), (2000, 2002)],
            [3, 10, (3, 4), (9, 10)], [8, 9, 20, (2, 28)], two=True)
        pol('long', [(1998, 2003), (1999, 2004), (1998, 2003)], [3, 3, 4],
            [1, 9, (1, 28)])
        pol('max3', [(2000, 2002, 'max'), (2001, 2003, 'max'), (2000, 2004)],
            [3, (3, 4), (3, 5)], [8, 9, 1])
        for k in range(1, 13):
            pol('m%d' % k, [(2000, 2002), (2001, 2003)], [k, (1, 12)],
                [(1, 28), (1, 28)])
    return out
