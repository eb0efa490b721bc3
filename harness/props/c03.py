"""C03: reported accurate years and truncation match what was dropped."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('two zones (1..3 eras, open or closed final) and two policies (2..3 '
          'rules), one policy shared or used by one zone or by none; symbolic '
          'UNTIL, FROM and TO years 1700..2500 and requested years, all '
          'scopes (basic with a small window)')
OUTSIDE = 'more zones, eras and rules'
COVERS = ['none', 'lower-era', 'upper-era', 'lower-rule', 'upper-rule',
          'unused-policy-truncated', 'other-zone-untouched', 'both-sides',
          'not-generated', 'via-policy-only', 'removed-zone-truncated']


def build(cx, zs, ps, scope, start, end):
    """zs: name -> era RULES; ps: name -> [(kind, month, to)]"""
    lo, hi = (1700, 2500) if scope != 'basic' else (start - 4, end + 4)
    lines, rules, eras = [], {}, {}
    for p, spec in ps.items():
        rules[p] = []
        for i, (k, m, to) in enumerate(spec):
            f = cx.int('%s.f%d' % (p, i), lo, hi)
            if to == 'max':
                t, tx = TO_MAX, 'max'
            elif to == 'only':
                t, tx = f, 'only'
            elif isinstance(to, int):
                t = f + to
                tx = fmt(t)
            else:
                t = cx.int('%s.t%d' % (p, i), lo, hi)
                cx.assume(f <= t)
                tx = fmt(t)
            l = 'ABCDEFG'[i]
            rules[p].append((f, t, l))
            lines.append(rule_line(p, f, tx, m, '8', '2:00',
                                   '0' if k == 'S' else '1:00', l))
    for z, (pat, closed) in zs.items():
        eras[z] = []
        spec = []
        for i, r in enumerate(pat):
            e = [fmt(i + 1), r, 'F%d' % i]
            u = INF
            if i < len(pat) - 1 or closed:
                u = cx.int('%s.u%d' % (z, i), lo, hi)
                if i:
                    cx.assume(u > eras[z][-1][0])
                e.append(until(u))
            eras[z].append((u, r, 'F%d' % i))
            spec.append(tuple(e))
        lines += zone_lines(z, spec)
    return lines, rules, eras


def ext(vals, hi):
    """(min, max) of symbolic years."""
    a, b = vals[0], vals[0]
    for v in vals[1:]:
        a = If(v < a, v, a) if not hi else a
        b = If(v > b, v, b)
    return b if hi else a


def shaped(cx, zs, ps, scope, win='sym', include=None):
    if win == 'sym':
        lo = 1974 if scope == 'extended' else 1800
        hi = 2225 if scope == 'extended' else 2300
        start = cx.int('start', lo, hi)
        end = cx.int('until', lo, hi)
        cx.assume(start <= end)
    else:
        start, end = win
    lines, rules, eras = build(cx, zs, ps, scope, start, end)
    res = run_main(cx, lines, default_opts(scope, start, end),
                   include=include)
    if not db.generated(res):
        cx.cover('not-generated')
        return
    j = res.json
    pl, pu = {}, {}
    gy = []
    for p in ps:
        rs = db.rules(res, p)
        if rs is None:
            continue
        have = [r['letter'] for r in rs]
        pl[p], pu[p] = False, False
        for f, t, l in rules[p]:
            if l not in have:
                low = t < start - 1
                pl[p] = Or(pl[p], low)
                pu[p] = Or(pu[p], Not(low))
        for r in rs:
            if not db.is_anchor(r):
                gy.append(r['from_year'])
        cx.check(Iff(j['policies_map'][p]['lower_rule_truncated'], pl[p]),
                 'lower truncation mark of a policy')
        cx.check(Iff(j['policies_map'][p]['upper_rule_truncated'], pu[p]),
                 'upper truncation mark of a policy')
    lower, upper = False, False
    for z in zs:
        es = db.eras(res, z)
        if es is None:
            cx.cover('removed-zone-truncated')
            continue
        idx = [int(str(e['format'])[1:]) for e in es]
        lo, up = idx[0] > 0, idx[-1] < len(zs[z][0]) - 1
        if len(idx) != idx[-1] - idx[0] + 1:
            cx.fail('an inner era is missing')
        for e in es:
            if not (e['until_year'] == INF):
                gy.append(e['until_year'])
        el, eu = lo, up
        for e in es:
            p = e['policy_name']
            if p is not None:
                lo, up = Or(lo, pl[p]), Or(up, pu[p])
        info = j['zones_map'][z]
        cx.check(Iff(info['lower_zone_truncated'], lo),
                 'lower truncation mark of a zone')
        cx.check(Iff(info['upper_zone_truncated'], up),
                 'upper truncation mark of a zone')
        lower, upper = Or(lower, lo), Or(upper, up)
        if el:
            cx.cover('lower-era')
        if eu:
            cx.cover('upper-era')
        cx.cover('lower-rule', And(lo, not el))
        cx.cover('upper-rule', And(up, not eu))
        cx.cover('via-policy-only', And(Or(lo, up), not (el or eu)))
    cx.check(Iff(j['lower_truncated'], lower), 'lower_truncated')
    cx.check(Iff(j['upper_truncated'], upper), 'upper_truncated')
    cx.check(j['start_year_accurate'] == If(lower, start, NEG),
             'start_year_accurate')
    cx.check(j['until_year_accurate'] == If(upper, end, INF),
             'until_year_accurate')
    cx.cover('none', And(Not(lower), Not(upper)))
    cx.cover('both-sides', And(lower, upper))
    used = {e[1] for z in zs if db.eras(res, z) is not None
            for e in eras[z]}
    for p in ps:
        if p not in used:
            cx.cover('unused-policy-truncated', And(
                Not(lower), Or(*[r[1] < start - 1 for r in rules[p]])))
    zl = [z for z in zs if db.eras(res, z) is not None]
    if len(zl) == 2:
        cx.cover('other-zone-untouched', And(
            lower, Not(j['zones_map'][zl[1]]['lower_zone_truncated'])))
    # year ranges
    oy = [e[0] for z in zs for e in eras[z] 
          if not (isinstance(e[0], int) and e[0] == INF)]
    oy += [r[0] for p in ps for r in rules[p]]
    for nm, ys in (('original', oy), ('generated', gy)):
        if ys:
            cx.check(j[nm + '_min_year'] == ext(ys, False), nm + '_min_year')
            cx.check(j[nm + '_max_year'] == ext(ys, True), nm + '_max_year')


def jobs(tier):
    out = []
    A2 = {'P': [('D', 3, 'y'), ('S', 10, 'y')]}
    M2 = {'P': [('D', 3, 'max'), ('S', 10, 'max')]}
    O3 = {'P': [('S', 3, 'only'), ('D', 6, 'y'), ('S', 10, 'max')]}
    PQ = {'P': [('S', 3, 'max'), ('D', 10, 'max')],
          'Q': [('S', 4, 'y'), ('D', 9, 'only')]}
    z1 = lambda pat, c=False: {'Z/A': (list(pat), c)}
    z2 = lambda a, b, c=False: {'Z/A': (list(a), c), 'Z/B': (list(b), False)}
    shapes = [
        ('none', {}, z1('---')), ('nonec', {}, z1('---', True)),
        ('two', {}, z2('--', '-')), ('twoc', {}, z2('--', '--', True)),
        ('pol', A2, z1('P')), ('pol3', O3, z1('P')),
        ('polmax', M2, z1('-P')), ('polera', A2, z1('P-')),
        ('mid', M2, z1('-P-')),
        ('shared', M2, z2('P', 'P')), ('other', A2, z2('P', '-')),
        ('dropuse', A2, z1('P-')),
        ('first3', {'P': [('D', 3, 2), ('S', 10, 'max')]}, z1('P--')),
        ('unused', PQ, z1('P')), ('both', PQ, z2('P', 'Q')),
    ]
    for nm, ps, zs in shapes:
        for scope in ('extended', 'complete'):
            out.append(Job('%s-%s' % (nm, scope), shaped, zs=zs, ps=ps,
                           scope=scope))
    B = {'P': [('D', 3, 1), ('S', 10, 2)]}
    for nm, zs in (('bz', z1('-P')), ('bzz', z2('P', '-'))):
        out.append(Job(nm + '-basic', shaped, zs=zs, ps=B, scope='basic',
                       win=(2000, 2003)))
    bad = {'Z/A': (['P', '1:00'], False), 'Z/B': (['-'], False)}
    out.append(Job('removed-basic', shaped, zs=bad, ps=B, scope='basic',
                   win=(2000, 2003)))
    for inc in (['Z/A'], ['Z/B']):
        out.append(Job('include-%s' % inc[0][-1], shaped,
                       zs=z2('--', 'P'), ps=A2, scope='complete',
                       include=inc))
    if tier != 'quick':
        P4 = {'P': [('S', 3, 'y'), ('D', 6, 'y'), ('S', 10, 'max'),
                    ('D', 4, 'only')]}
        PP = {'P': [('S', 3, 'y'), ('D', 10, 'y')],
              'Q': [('S', 4, 'y'), ('D', 9, 'max')]}
        for nm, ps, zs in [('t1', P4, z1('P--')), ('t2', PP, z2('P-', 'Q')),
                           ('t3', PP, z1('-P-Q', True)),
                           ('t4', {}, z2('----', '---'))]:
            for scope in ('extended', 'complete'):
                out.append(Job('%s-%s' % (nm, scope), shaped, zs=zs, ps=ps,
                               scope=scope))
    return out
