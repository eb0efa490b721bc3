"""C09: tiny years preserve order, windows and sentinels."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('FROM, TO and UNTIL years 1..9999 against base years 1800..2400, '
          'windows of every start and until year, scopes extended and basic '
          '(basic with a fixed small window), plus the conversion helpers '
          'for every 16-bit year, sentinels included, and every base year '
          '1700..2500')
OUTSIDE = 'other base years'
COVERS = ['from-exact', 'from-low', 'to-exact', 'to-low',
          'to-high', 'to-max', 'until-exact', 'until-open', 'window-low',
          'window-high', 'ordered', 'anchor', 'helper-from', 'helper-until',
          'helper-invalid']
LO, HI, UHI = -127, 126, 127


def conv(y, base, until_=False):
    top = UHI if until_ else HI
    d = y - base
    return If(d <= LO, LO, If(d >= top, top, d))


def rules(cx, scope, to_kind):
    base = cx.int('base', 1800, 2400)
    if scope == 'basic':
        start, end = 2000, 2010
        cx.assume(between(base, 1880, 2130))
        f = cx.int('f', 1990, 2015)
    else:
        start = cx.int('start', 1974, 2500)
        end = cx.int('until', 1974, 2500)
        cx.assume(start <= end)
        f = cx.int('f', 1, 9999)
    if to_kind == 'max':
        t, tx = TO_MAX, 'max'
    elif to_kind == 'only':
        t, tx = f, 'only'
    elif isinstance(to_kind, int):
        t = f + to_kind
        tx = fmt(t)
    else:
        t = cx.int('t', 1, 9999)
        cx.assume(f <= t)
        tx = fmt(t)
    far = 1 if scope == 'extended' else 1985
    lines = [rule_line('P', f, tx, 3, '8', '2:00', '1:00', 'D'),
             rule_line('P', far, 9999 if far == 1 else 2030, 10, '8', '2:00',
                       '0', 'S')]
    lines += zone_lines('Z/A', [('1:00', 'P', 'F%sT')])
    res = run_main(cx, lines, default_opts(scope, start, end,
                                           tiny_base_year=base))
    fits = And(LO < start - base, start - base < HI,
               LO < end - base, end - base < HI)
    rs = db.rules(res, 'P')
    if rs is None:
        cx.check(Not(fits), 'a window that fits is refused')
        cx.cover('window-low', start - base <= LO)
        cx.cover('window-high', And(start - base > LO, end - base >= HI))
        return
    cx.check(fits, 'a window that does not fit is accepted')
    ys = []
    for r in rs:
        a, b = r['from_year_tiny'], r['to_year_tiny']
        if db.is_anchor(r):
            cx.check(And(a == LO, b == LO), 'tiny years of the anchor')
            cx.cover('anchor')
            continue
        fy, ty = r['from_year'], r['to_year']
        cx.check(And(between(a, LO, HI), between(b, LO, HI)),
                 'tiny FROM or TO is a reserved value')
        cx.check(a == conv(fy, base), 'tiny FROM year')
        cx.check(b == If(ty == TO_MAX, HI, conv(ty, base)), 'tiny TO year')
        ys += [(fy, a), (ty, b)]
        if r['letter'] == 'D':
            cx.check(And(fy == f, ty == t), 'full years')
            cx.cover('from-exact', between(fy - base, LO + 1, HI - 1))
            cx.cover('from-low', fy - base < LO)
            cx.cover('to-exact', between(ty - base, LO + 1, HI - 1))
            cx.cover('to-low', ty - base < LO)
            cx.cover('to-high', And(ty - base > HI, ty != TO_MAX))
            if to_kind == 'max':
                cx.cover('to-max')
    order(cx, ys, base, HI)


def order(cx, ys, base, top):
    for i in range(len(ys)):
        for k in range(i):
            (y1, t1), (y2, t2) = ys[i], ys[k]
            cx.check(And(Implies(y1 <= y2, t1 <= t2),
                         Implies(y2 <= y1, t2 <= t1),
                         Implies(And(y1 < y2, y1 - base > LO,
                                     y2 - base < top), t1 < t2)),
                     'years are reordered')
            cx.cover('ordered', y1 < y2)


def untils(cx, n, scope):
    base = cx.int('base', 1800, 2400)
    start = cx.int('start', 1980 if scope == 'basic' else 1974, 2500)
    end = cx.int('until', 1974, 2500)
    cx.assume(start <= end)
    es, prev = [], None
    for i in range(n - 1):
        y = cx.int('y%d' % i, 1, 9999)
        if prev is not None:
            cx.assume(prev < y)
        prev = y
        es.append((fmt(i + 1), '-', 'F%d' % i, until(y)))
    es.append((fmt(n), '-', 'F%d' % (n - 1)))
    res = run_main(cx, zone_lines('Z/A', es),
                   default_opts(scope, start, end, tiny_base_year=base))
    fits = And(LO < start - base, start - base < HI,
               LO < end - base, end - base < HI)
    got = db.eras(res, 'Z/A')
    if got is None:
        cx.check(Not(fits), 'a window that fits is refused')
        return
    cx.check(fits, 'a window that does not fit is accepted')
    ys = []
    for e in got:
        y, t = e['until_year'], e['until_year_tiny']
        cx.check(between(t, LO, UHI), 'tiny UNTIL is reserved')
        cx.check(t == If(y == INF, UHI, conv(y, base, True)),
                 'tiny UNTIL year')
        ys.append((y, t))
        cx.cover('until-exact', between(y - base, LO + 1, UHI - 1))
        cx.cover('until-open', y == INF)
    order(cx, ys, base, UHI)


def helper(cx, which):
    mod = env.module(cx, 'transformer.transformer')
    f = getattr(mod, which, None)
    if f is None:
        raise Inconclusive('%s is gone' % which)
    b = cx.int('base', 1700, 2500)
    y1 = cx.int('y1', -32768, 32767)
    y2 = cx.int('y2', -32768, 32767)
    u = 'until' in which
    top = UHI if u else HI
    sent = INF if u else TO_MAX
    r1, r2 = f(y1, b), f(y2, b)
    for y, r in ((y1, r1), (y2, r2)):
        cx.check(r == If(y == -32768, -128, If(
            y == NEG, LO, If(y == sent, top, conv(y, b, u)))),
            'tiny year of a helper')
    cx.check(Implies(y1 <= y2, r1 <= r2), 'helper reorders years')
    cx.cover('helper-until' if u else 'helper-from',
             between(y1 - b, LO + 1, top - 1))
    cx.cover('helper-invalid', y1 == -32768)


def jobs(tier):
    out = []
    for k in ('y', 'max', 'only'):
        out.append(Job('rules-' + k, rules, scope='extended', to_kind=k))
    for k in (0, 2, 'only') if tier == 'quick' else (0, 1, 2, 5, 'only'):
        out.append(Job('basic-%s' % k, rules, scope='basic', to_kind=k))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for scope in ('extended', 'basic'):
            out.append(Job('until-%d-%s' % (n, scope), untils, n=n,
                           scope=scope))
    for w in ('to_tiny_from_to_year', 'to_tiny_until_year'):
        out.append(Job(w, helper, which=w))
    return out
