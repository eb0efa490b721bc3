"""C01: zone eras inside the requested years survive unchanged."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('1..4 eras (thorough 1..5), symbolic UNTIL years 1700..2500 in '
          'increasing order, symbolic requested start and until years, UNTIL '
          'given as year, as month/day/time (time symbolic, w/s/u) or as a '
          'weekday expression, final era open or closed, RULES none, fixed '
          'or a policy; every local instant of the window (symbolic year, '
          'month, day, second)')
OUTSIDE = 'more eras; UNTIL times of different references compared as written'
COVERS = ['first-dropped', 'last-dropped', 'both-dropped', 'all-kept',
          'closed-final', 'mid-year-until', 'window-first-year',
          'window-last-year', 'policy', 'fixed', 'not-emitted']
RULES = {'-': '-', 'f': '1:00', 'g': '0:30', 'P': 'P', 'Q': 'Q'}


def instant(cx, start, until_):
    y = cx.int('t.y', 1500, 2600)
    m = cx.int('t.m', 1, 12)
    d = cx.int('t.d', 1, 31)
    s = cx.int('t.s', 0, 86399)
    cx.assume(And(y >= start - 1, y <= until_))
    return y, m, d, s


def pick(t, untils, vals):
    """vals[i] of the first era with t < untils[i], else the last."""
    r = vals[-1]
    for u, v in reversed(list(zip(untils, vals))[:-1]):
        r = If(lex_lt(t, u), v, r)
    return r


def shaped(cx, n, shape, closed, rules, scope, win):
    """shape[i]: 'y' year only, 'd' month/day/time, 'w' weekday expression."""
    if win == 'sym':
        lo = {'basic': 1980, 'extended': 1974, 'complete': 1800}[scope]
        hi = 2225 if scope != 'complete' else 2300
        start = cx.int('start', lo, hi)
        end = cx.int('until', lo, hi)
        cx.assume(start <= end)
    else:
        start, end = win
    src, lines = [], []
    for i in range(n):
        spec = [fmt(i + 1), RULES[rules[i]], 'F%d' % i]
        if i < n - 1 or closed:
            y = cx.int('y%d' % i, 1700, 2500)
            if src:
                cx.assume(y > src[-1][0])
            k = shape[i]
            if k == 'y':
                src.append((y, 1, 1, 0))
                spec.append(until(y))
            elif k == 'd':
                mon = cx.choice('mon%d' % i, [1, 12] if n > 2 and
                                 not closed else [12] if n > 2 else
                                 [1, 7, 12])
                d = cx.int('d%d' % i, 1, 28)
                h = cx.int('h%d' % i, 0, 24)
                sfx = cx.choice('x%d' % i, ['', 'u'] if n > 2 else
                                ['', 's', 'u'])
                src.append((y, mon, d, h * 3600))
                spec.append(until(y, mon, d, cat(fmt(h), ':00', sfx)))
            else:
                mon, e, kind, dow, m = k
                ry, rm, rd = day_expr(y, mon, kind, dow, m)
                src.append((ry, rm, rd, 7200))
                spec.append(until(y, mon, e, '2:00'))
        else:
            src.append((INF, 1, 1, 0))
        lines.append(tuple(spec))
    text = [rule_line('P', 1600, 2400, 3, '8', '2:00', '1:00', 'D'),
            rule_line('P', 1600, 2400, 10, '8', '2:00', '0', 'S'),
            rule_line('Q', 1600, 2400, 4, '8', '2:00', '0:30', 'D'),
            rule_line('Q', 1600, 2400, 9, '8', '2:00', '0', 'S')]
    text += zone_lines('Z/A', lines)
    res = run_main(cx, text, default_opts(scope, start, end))
    got = db.eras(res, 'Z/A')
    # does some era reach the window?
    reach = src[-1][0] >= start - 1
    if got is None:
        # a zone that ends inside the window is malformed
        must = And(reach, src[-1][0] > end + 1)
        if scope == 'basic':
            must = False
        cx.check(Not(must), 'a valid zone is not generated')
        cx.cover('not-emitted')
        return
    if len(got) == 0:
        cx.fail('a zone without eras')
        return
    t = instant(cx, start, end)
    gu = [(e['until_year'], e['until_month'], e['until_day'],
           e['until_seconds']) for e in got]
    cx.check(got[-1]['until_year'] == INF, 'the last era is not open-ended')
    cx.check(And(*[u[0] < INF for u in gu[:-1]]),
             'an era before the last is open-ended')
    want = pick(t, src, list(range(n)))
    # an era of the generated zone is identified by its format
    idx = []
    for e in got:
        f = e['format']
        k = [i for i in range(n) if f == 'F%d' % i]
        if len(k) != 1:
            cx.fail('unknown format %s' % (f,))
            return
        k = k[0]
        idx.append(k)
        cx.check(e['offset_seconds'] == (k + 1) * 3600,
                 'STDOFF of an era changed')
        pol, dlt = {'-': (None, 0), 'f': (None, 3600), 'g': (None, 1800),
                    'P': ('P', 0), 'Q': ('Q', 0)}[rules[k]]
        cx.check(e['policy_name'] == pol, 'policy of an era changed')
        cx.check(e['era_delta_seconds'] == dlt, 'fixed SAVE changed')
    cx.check(all(a < b for a, b in zip(idx, idx[1:])),
             'eras are not in source order')
    cx.check(pick(t, gu, idx) == want, 'another era is in effect')
    if idx[0] > 0 and idx[-1] < n - 1:
        cx.cover('both-dropped')
    elif idx[0] > 0:
        cx.cover('first-dropped')
    elif idx[-1] < n - 1:
        cx.cover('last-dropped')
    elif n > 1:
        cx.cover('all-kept')
    if closed:
        cx.cover('closed-final')
    if 'd' in shape and len(got) > 1:
        cx.cover('mid-year-until')
    if len(got) > 1:
        cx.cover('window-first-year', And(t[0] == start - 1,
                                          gu[0][0] == start - 1))
        cx.cover('window-last-year', And(t[0] == end, gu[-2][0] == end))
    if 'P' in rules or 'Q' in rules:
        cx.cover('policy')
    if 'f' in rules or 'g' in rules:
        cx.cover('fixed')


def jobs(tier):
    out = []

    def add(name, n, shape, closed, rules, scope, win='sym'):
        out.append(Job('%s-%s' % (name, scope), shaped, n=n, shape=shape,
                       closed=closed, rules=rules, scope=scope, win=win))
    scopes = ['complete', 'extended', 'basic']
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for closed in (False, True):
            for scope in scopes:
                r = {'basic': '-P-P-', 'extended': 'P-fPQ',
                     'complete': '-f-gP'}[scope]
                add('y%d%s' % (n, 'c' if closed else 'o'), n, 'yyyyy', closed,
                    r, scope)
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for closed in (False, True):
            for scope in ('complete', 'extended'):
                for sh in ('dyddd', 'ydyyy') if n > 1 else ('ddddd',):
                    add('d%d%s%s' % (n, 'c' if closed else 'o', sh[0]), n, sh,
                        closed, 'f-PQ-', scope, (2000, 2050)
                        if tier == 'quick' and n > 1 else 'sym')
    ws = [(3, 'lastSun', 'last', 7, 0), (2, 'Fri>=25', 'ge', 5, 25),
          (5, 'Sun<=3', 'le', 7, 3)]
    for k, w in enumerate(ws):
        for closed in (False, True):
            add('w%d%s' % (k, 'c' if closed else 'o'), 2,
                (w, 'y' if tier == 'quick' else w), closed,
                '-P', 'extended', (2000, 2050))
            add('w%d%s' % (k, 'c' if closed else 'o'), 2, ('y', w), closed,
                '--', 'complete', (2000, 2050))
    add('c-d', 1, 'd', True, '-', 'basic')
    add('c-w', 1, (ws[0],), True, '-', 'basic', (2000, 2050))
    return out
