"""C05: rule ON expressions are encoded faithfully or rejected."""
from harness.ctx import *
from harness.ctx import codes
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.props.c04 import expr, read_expr

BOUNDS = ('every month, weekday, day number 0..35 and the four expression '
          'kinds, compared as dates in every year 1600..2400, scopes basic, '
          'extended, complete; arbitrary printable texts of length 1..4 '
          '(thorough 1..7)')
OUTSIDE = 'longer expression texts'
COVERS = ['num', 'last', 'ge', 'le', 'rejected', 'jan-shift', 'dec-shift',
          'text-emitted', 'text-rejected', 'std-rule']


def run(cx, mon, day, scope, std=False):
    """Returns (weekday, day of month) of the generated rule, or None."""
    to = 2040 if scope == 'basic' else 'max'
    om = 6 if mon != 6 else 7
    a, b = ('0', '1:00') if std else ('1:00', '0')
    lines = [rule_line('P', 2000, to, mon, day, '2:00', a, 'D'),
             rule_line('P', 2000, to, om, '15', '3:00', b, 'S')]
    lines += zone_lines('Z/A', [('1:00', 'P', 'F%sT')])
    res = run_main(cx, lines, default_opts(scope, 2000, 2030))
    rs = db.rules(res, 'P')
    if rs is None:
        return None
    rs = db.with_letter(rs, 'D')
    if len(rs) != 1:
        return None
    r = rs[0]
    if not (r['in_month'] == mon):
        cx.fail('month of the rule changed')
    return r['on_day_of_week'], r['on_day_of_month']


def denoted(y, mon, w, d):
    """Date of an encoded pair; forks on the kind."""
    if w == 0:
        return y, mon, d
    if d == 0:
        return day_expr(y, mon, 'last', w, 0)
    if d > 0:
        return day_expr(y, mon, 'ge', w, d)
    return day_expr(y, mon, 'le', w, -d)


def judge(cx, got, mon, kind, dow, n, scope):
    y = cx.int('y', 1600, 2400)
    dim = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mon - 1]
    shift = False
    if kind == 'le' and mon == 1:
        shift = n <= 6
    elif kind == 'ge' and mon == 12:
        shift = n >= 26
    valid = True if kind == 'last' else between(n, 1, 31)
    if got is None:
        plain = True if kind == 'last' else between(n, 1, 28)
        if kind == 'le' and mon == 1:
            plain = And(plain, n > 7)
        if kind == 'ge' and mon == 12:
            plain = And(plain, n < 25)
        if scope == 'basic' and mon == 1:
            plain = And(plain, n > 7)
        cx.check(Not(plain), 'a valid ON expression is rejected')
        cx.cover('rejected')
        cx.cover('jan-shift', And(shift, mon == 1))
        cx.cover('dec-shift', And(shift, mon == 12))
        return
    w, d = got
    cx.check(And(valid, between(w, 0, 7), between(d, -31, 31)),
             'an invalid ON expression is emitted')
    cx.check(Not(shift), 'an expression that can leave its year is emitted')
    # same date in every year in which the day exists
    ok = And(valid, Not(shift), True if kind == 'last'
             else n <= days_in(y, mon))
    if isinstance(w, int) and w == 0 or (isinstance(w, SymInt) and w == 0):
        cx.check(Or(Not(ok), d >= 1), 'no day')
        exists = True
    else:
        exists = If(d == 0, True, If(d > 0, d, -d) <= days_in(y, mon))
    cx.check(Implies(ok, exists), 'encoded day does not exist')
    g = denoted(y, mon, w, d)
    r = day_expr(y, mon, kind, dow, n)
    cx.check(Implies(ok, And(*[a == b for a, b in zip(g, r)])),
             'encoded ON differs in some year')
    cx.cover(kind)


def shaped(cx, kind, mon, dows, scope, std=False):
    dow = cx.choice('dow', dows) if kind != 'num' else 0
    n = cx.int('n', 0, 35) if kind != 'last' else 0
    got = run(cx, mon, expr(kind, dow, n), scope, std)
    judge(cx, got, mon, kind, dow, n, scope)
    if std and got is not None:
        cx.cover('std-rule')


def freetext(cx, n, mon, pre=''):
    text = cat(pre, cx.text('t', n, exclude='#'))
    got = run(cx, mon, text, 'complete')
    r = read_expr(codes(text))
    if r is None:
        cx.check(got is None, 'text that is no ON expression is emitted')
        cx.cover('text-rejected')
        return
    judge(cx, got, mon, *r, 'complete')
    if got is not None:
        cx.cover('text-emitted')


def jobs(tier):
    out = []
    allg = [(1,), (2,), (3,), (4,), (5,), (6,), (7,)]
    for mon in range(1, 13):
        for kind in ('num', 'last', 'ge', 'le'):
            for scope in ('complete', 'extended', 'basic'):
                if scope != 'complete' and tier == 'quick' and \
                        mon not in (1, 2, 12):
                    continue
                gs = [(0,)] if kind == 'num' else (
                    [(mon % 7 + 1,)] if tier == 'quick' else allg)
                for g in gs:
                    out.append(Job('%s-%s-%s-%s' % (
                        kind, MONTHS[mon], scope, g[0]), shaped, kind=kind,
                        mon=mon, dows=list(g), scope=scope))
    if tier == 'quick':
        out.append(Job('dows-ge', shaped, kind='ge', mon=3,
                       dows=[1, 2, 3, 4, 5, 6, 7], scope='complete'))
        out.append(Job('dows-le', shaped, kind='le', mon=10,
                       dows=[1, 2, 3, 4, 5, 6, 7], scope='complete'))
        out.append(Job('dows-last', shaped, kind='last', mon=9,
                       dows=[1, 2, 3, 4, 5, 6, 7], scope='complete'))
    for kind in ('num', 'last', 'ge', 'le'):
        for mon in (1, 9, 12):
            out.append(Job('std-%s-%d' % (kind, mon), shaped, kind=kind,
                           mon=mon, dows=[7], scope='complete', std=True))
    for n in range(1, (4 if tier == 'quick' else 7) + 1):
        out.append(Job('text-%d' % n, freetext, n=n, mon=3))
    for pre in ('Sun>=', 'Sun<=', 'last', 'Sun'):
        for n in (1, 2, 3):
            out.append(Job('text-%s%d' % (pre, n), freetext, n=n, mon=3,
                           pre=pre))
    return out
