"""C28: a zone is compiled independently of the rest of the source."""
from harness.ctx import *
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('one zone of three eras with one policy of three rules (symbolic '
          'UNTIL years, UNTIL and AT seconds or minutes, FROM and TO years, '
          'STDOFF and SAVE minutes), compiled alone and compiled together '
          'with one of 28 neighbours (valid, or removed for each reason the '
          'compiler knows; symbolic year) placed before, after, around or '
          'interleaved, in the same or in another file, or left out by an '
          'include list; the three scopes, lax and strict')
OUTSIDE = ('fields that are indexes into tables shared by all zones, buffer '
           'years, memory totals; sources in which the neighbour aborts the '
           'generation')
COVERS = ['generated', 'removed', 'neighbour-removed', 'neighbour-generated',
          'policy', 'policy-removed', 'noted', 'include', 'shared', 'abort',
          'link', 'own-removed']
FILES = ['africa', 'europe']


def yes(x):
    return x if isinstance(x, bool) else bool(x)


def find(m, k):
    if m is None:
        return None
    return m[k] if k in m else None


def strip(d):
    """An era or rule without its indexes into shared tables."""
    return {k: d[k] for k in d.keys() if not k.endswith('_index')}


def same_records(cx, a, b, key, what):
    cx.check((a is None) == (b is None), what + ' in one run only')
    if a is None or b is None:
        return
    cx.check(len(a[key]) == len(b[key]), 'number of records of ' + what)
    for x, y in zip(a[key], b[key]):
        x, y = strip(x), strip(y)
        for k in x:
            cx.check(k in y, '%s: %s missing' % (what, k))
            if k in y:
                cx.check(eq(x[k], y[k]), '%s: %s' % (what, k))
        cx.check(len(x) == len(y), 'fields of ' + what)
    for k in a.keys():
        if k != key:
            cx.check(k in b and eq(a[k], b[k]), '%s: %s' % (what, k))


def same_notes(cx, a, b, what):
    a = [] if a is None else list(a)
    b = [] if b is None else list(b)
    cx.check(len(a) == len(b), what)
    if len(a) == len(b):
        cx.check(And(*[eq(x, y) for x, y in zip(a, b)]), what)


def compare(cx, r1, r2, zone, policy, links=()):
    """r1: alone; r2: with neighbours."""
    if r1.exc is not None:
        # the zone alone cannot be generated in this scope
        cx.check(r2.exc is not None, 'abort only without the neighbours')
        cx.cover('abort')
        return
    if r2.exc is not None:
        cx.cover('abort')
        return
    J, K = r1.json, r2.json
    same_records(cx, find(J['zones_map'], zone), find(K['zones_map'], zone),
                 'eras', 'the zone')
    gen = find(J['zones_map'], zone) is not None
    cx.cover('generated', gen)
    cx.cover('removed', not gen)
    if gen:
        same_records(cx, find(J['policies_map'], policy),
                     find(K['policies_map'], policy), 'rules', 'the policy')
        cx.check(eq(find(J['zone_ids'], zone), find(K['zone_ids'], zone)),
                 'the id of the zone')
    cx.cover('policy', find(J['policies_map'], policy) is not None)
    cx.cover('policy-removed', find(J['removed_policies'], policy)
             is not None)
    for m in ('removed_zones', 'notable_zones', 'zones_to_policies'):
        same_notes(cx, find(J[m], zone), find(K[m], zone),
                   '%s of the zone' % m)
    if gen:
        same_notes(cx, find(J['notable_policies'], policy),
                   find(K['notable_policies'], policy),
                   'notes of the policy')
    cx.cover('noted', find(J['notable_zones'], zone) is not None)
    cx.cover('own-removed', find(J['removed_zones'], zone) is not None)
    for l in links:
        cx.check(eq(find(J['links_map'], l), find(K['links_map'], l)),
                 'the link of the zone')
        cx.cover('link', find(J['links_map'], l) is not None)
    cx.cover('neighbour-removed', len(K['removed_zones']) >
             len(J['removed_zones']))
    cx.cover('neighbour-generated', len(K['zones_map']) >
             len(J['zones_map']))


# ---------------------------------------------------------------------------

def okrules(p, f=1990, t=2040):
    return [rule_line(p, f, t, 3, '8', '2:00', '1:00', 'D'),
            rule_line(p, f, t, 10, '8', '2:00', '0', 'S')]


def neighbour(kind, p, z, y):
    """(rule lines, zone lines) of a neighbour; y: a symbolic year."""
    R = okrules(p)
    Z = [('1:00', p, 'A%s', until(y)), ('2:00', p, 'B%s', until(y + 2)),
         ('3:00', p, 'C%s')]
    fail = {
        'rule-at': lambda: rule_line(p, y, 2040, 5, '8', '26:00', '0', 'S'),
        'rule-at-sec': lambda: rule_line(p, y, 2040, 5, '8', '2:00:30',
                                         '0', 'S'),
        'rule-suffix': lambda: rule_line(p, y, 2040, 5, '8', '2:00x', '0',
                                         'S'),
        'rule-save': lambda: rule_line(p, y, 2040, 5, '8', '2:00', '7:00',
                                       'S'),
        'rule-save-min': lambda: rule_line(p, y, 2040, 5, '8', '2:00',
                                           '0:25', 'S'),
        'rule-on': lambda: rule_line(p, y, 2040, 12, 'Sun>=29', '2:00', '0',
                                     'S'),
        'rule-on-bad': lambda: rule_line(p, y, 2040, 5, 'Foo>=2', '2:00',
                                         '0', 'S'),
        'rule-month-twice': lambda: rule_line(p, y, 2040, 3, '20', '2:00',
                                              '0', 'S'),
        'rule-jan-1': lambda: rule_line(p, y, 2040, 1, '1', '0:00', '0',
                                        'S'),
    }
    if kind in fail:
        # the rule that is refused comes first, in the middle and last
        R = [R[0], fail[kind](), R[1]]
    elif kind == 'rules-old':
        R = okrules(p, 1970, y - 30)
    elif kind == 'rules-future':
        R = okrules(p, y + 200, y + 210)
    elif kind == 'rules-long':
        # truncated on both sides
        R = okrules(p, 1970, y - 20) + okrules(p, 1990, 2040) + \
            okrules(p, y + 200, y + 210)
    elif kind == 'era-long':
        Z = [('1:00', p, 'A%s', until(1950)), ('2:00', p, 'B%s', until(y)),
             ('1:00', p, 'C%s', until(y + 80)),
             ('1:00', p, 'D%s', until(y + 90)), ('3:00', p, 'E%s')]
    elif kind == 'rules-dst-only':
        R = [rule_line(p, 2000, 'max', 3, '8', '2:00', '1:00', 'D')]
    elif kind == 'rules-missing':
        R = []
    elif kind == 'era-stdoff':
        Z[1] = ('99:00', p, 'B%s', until(y + 2))
    elif kind == 'era-stdoff-sec':
        Z[1] = ('2:00:30', p, 'B%s', until(y + 2))
    elif kind == 'era-fixed':
        Z[1] = ('2:00', '0:25', 'B', until(y + 2))
    elif kind == 'era-day':
        Z[1] = ('2:00', p, 'B%s', until(y + 2, 2, 30))
    elif kind == 'era-until-sec':
        Z[1] = ('2:00', p, 'B%s', until(y + 2, 2, 3, '1:00:30'))
    elif kind == 'era-suffix':
        Z[1] = ('2:00', p, 'B%s', until(y + 2, 2, 3, '1:00q'))
    elif kind == 'era-time':
        Z[1] = ('2:00', p, 'B%s', until(y + 2, 2, 3, '29:00'))
    elif kind == 'era-order':
        Z[1] = ('2:00', p, 'B%s', until(y - 2))
    elif kind == 'era-ends':
        Z[2] = ('3:00', p, 'C%s', until(y + 5))
    elif kind == 'era-ends-late':
        Z[2] = ('3:00', p, 'C%s', until(y + 60))
    elif kind == 'era-old':
        Z = [('1:00', p, 'A%s', until(1950)), ('3:00', p, 'C%s')]
    elif kind == 'one-era':
        Z = [('3:00', '-', 'C')]
    elif kind != 'good':
        raise ValueError(kind)
    return R, zone_lines(z, Z)


KINDS = ['good', 'one-era', 'era-stdoff', 'era-stdoff-sec', 'era-fixed',
         'era-day', 'era-until-sec', 'era-suffix', 'era-time', 'era-order',
         'era-ends', 'era-ends-late', 'era-old', 'rules-old', 'rules-future',
         'rules-long', 'era-long',
         'rules-dst-only', 'rules-missing', 'rule-at', 'rule-at-sec',
         'rule-suffix', 'rule-save', 'rule-save-min', 'rule-on',
         'rule-on-bad', 'rule-month-twice', 'rule-jan-1']


def subject(cx, shape, scope):
    """The zone whose compilation is compared."""
    R = okrules('P', 1998, 2012)
    u = [until(2005), until(2008)]
    off = '1:00'
    rule = 'P'
    if shape == 'years':
        y = cx.int('y', 1996, 2012)
        u = [until(y), until(y + 3)]
        # something is dropped, but on one side only
        R = okrules('P', 1970, 1980) + R
    elif shape == 'times':
        if scope == 'basic':
            u = [until(2005), until(2008)]
        else:
            s = cx.int('us', 29, 31)
            u = [until(2005, 2, 8, cat('1:00:', fmt(s), 's')),
                 until(2005, 2, 8, cat('1:00:', fmt(s + 1), 's'))]
        R.append(rule_line('P', 2014, 'max', 5, 'Sun>=8',
                           cat('2:00:', fmt(cx.int('as', 10, 59))),
                           '1:00', 'D'))
    elif shape == 'rules':
        f = cx.int('f', 1990, 2012)
        R = [rule_line('P', 1995, 2003, 3, '8', '2:00', '1:00', 'D'),
             rule_line('P', f, f + 3, 10, '8', '2:00', '0', 'S'),
             rule_line('P', 2003, 2011, 4, 'lastSun', '2:00u', '0:30', 'X')]
    elif shape == 'amounts':
        m = cx.int('m', 0, 59)
        off = cat('1:', fmt(m, '02'))
        R.append(rule_line('P', 2014, 'max', 5, 'Sun>=8', '2:00',
                           cat('0:', fmt(cx.int('sv', 0, 59), '02')), 'D'))
    elif shape == 'fixed':
        rule = cat('0:', fmt(cx.int('rf', 0, 59), '02'))
    elif shape == 'refused':
        # some values of the AT time and of the UNTIL hour are refused
        R.append(rule_line('P', 2014, 'max', 5, 'Sun>=8', cat(fmt(
            cx.int('h', 24, 26)), ':00'), '1:00', 'D'))
        u[1] = until(2008, 1, 1, cat(fmt(cx.int('uh', 0, 26)), ':00'))
    Z = zone_lines('Z/A', [(off, rule, 'FOO', u[0]),
                           (off, 'P', 'A%s', u[1]), ('2:00', 'P', 'B%s')])
    return R, Z


def place(where, own, other):
    """Source files holding both."""
    (R, Z), (Q, Y) = own, other
    if where == 'before':
        return {'africa': Q + Y + R + Z}
    if where == 'after':
        return {'africa': R + Z + Q + Y}
    if where == 'mixed':
        # rules interleaved, zones in reverse order of their rules
        out = []
        for i in range(max(len(Q), len(R))):
            out += Q[i:i + 1] + R[i:i + 1]
        return {'africa': Y + out + Z}
    if where == 'zones-first':
        return {'africa': Y + Z + R + Q}
    if where == 'file':
        return {'africa': Q + Z, 'europe': Y + R}
    raise ValueError(where)


def together(cx, scope, strict, shape, kinds, wheres):
    R, Z = subject(cx, shape, scope)
    kind = cx.choice('kind', kinds)
    where = cx.choice('where', wheres)
    y = cx.int('ny', 2001, 2002)
    L = [link_line('Z/A', 'Y/L')]
    o = dict(strict=strict, nostrict=not strict)
    r1 = run_main(cx, {'africa': R + Z + L},
                  default_opts(scope, 2000, 2010, **o), name='alone',
                  observe=False)
    src = place(where, (R, Z), neighbour(kind, 'Q', 'Z/N', y))
    if where == 'file':
        src['asia'] = L + neighbour(kind, 'QQ', 'Z/0', y + 1)[1]
    else:
        src['africa'] = src['africa'] + L
    r2 = run_main(cx, src, default_opts(scope, 2000, 2010, **o), name='both')
    compare(cx, r1, r2, 'Z/A', 'P', ['Y/L'])


def shared(cx, scope, kinds):
    """The neighbour uses the same policy and may be removed."""
    R, Z = subject(cx, 'years', scope)
    kind = cx.choice('kind', kinds)
    first = cx.flag('first')
    o = dict(strict=True)
    N = neighbour(kind, 'P', 'Z/N', 2001)[1]
    r1 = run_main(cx, R + Z, default_opts(scope, 2000, 2010, **o),
                  name='alone', observe=False)
    r2 = run_main(cx, R + (N + Z if first else Z + N),
                  default_opts(scope, 2000, 2010, **o), name='both')
    compare(cx, r1, r2, 'Z/A', 'P')
    cx.cover('shared')


def include(cx, scope, kinds):
    """The neighbour is left out by an include list."""
    R, Z = subject(cx, 'years', scope)
    kind = cx.choice('kind', kinds)
    Q, Y = neighbour(kind, 'Q', 'Z/N', 2001)
    L = [link_line('Z/A', 'Y/L')]
    M = [link_line('Z/N', 'Y/M')]
    r1 = run_main(cx, R + Z + L, default_opts(scope, 2000, 2010),
                  name='alone', observe=False)
    first = cx.flag('first')
    src = Q + Y + M + R + Z + L if first else R + Z + L + Q + Y + M
    r2 = run_main(cx, src, default_opts(scope, 2000, 2010),
                  include=['Z/A', 'Y/L'], name='both')
    compare(cx, r1, r2, 'Z/A', 'P', ['Y/L'])
    if r1.exc is None and r2.exc is None:
        cx.check(len(r2.json['zones_map']) == len(r1.json['zones_map']),
                 'a zone outside the include list')
        cx.check(len(r2.json['policies_map']) ==
                 len(r1.json['policies_map']),
                 'a policy outside the include list')
        cx.cover('include')
    else:
        # a neighbour that is left out never aborts
        cx.check((r1.exc is None) == (r2.exc is None),
                 'abort because of a zone outside the include list')


def jobs(tier):
    out = []
    deep = tier == 'thorough'
    W = ['before', 'after', 'mixed', 'zones-first', 'file']
    n = 10
    for i in range(0, len(KINDS), n):
        ks = KINDS[i:i + n]
        for shape in ('years', 'rules', 'times', 'refused'):
            for strict in (True, False):
                if not deep and (shape in ('times', 'refused')) != strict:
                    continue
                for ws in ([[w] for w in W] if deep else
                           [['before'], ['after'], ['mixed', 'file']]):
                    out.append(Job(
                        'basic:%s:%s:%d:%s' % (shape, strict, i, ws[0]),
                        together, scope='basic',
                        strict=strict, shape=shape, kinds=ks, wheres=ws))
    ok = ['good', 'one-era', 'era-old', 'era-ends-late', 'rules-long', 'era-long', 'rules-dst-only', 'rules-future',
          'era-suffix', 'rule-save-min']
    for scope in ('extended', 'complete'):
        for shape in ('years', 'rules', 'times', 'amounts', 'fixed'):
            for strict in (True, False):
                if not deep and (shape == 'times') != strict:
                    continue
                out.append(Job('%s:%s:%s' % (scope, shape, strict), together,
                               scope=scope, strict=strict, shape=shape,
                               kinds=ok if deep or shape in
                               ('years', 'times') else ok[:2],
                               wheres=W if deep else
                               ['before', 'mixed', 'file']))
    for scope in ('basic', 'extended'):
        ks = KINDS if deep else ['good', 'era-day', 'era-ends', 'era-stdoff']
        out.append(Job('shared:' + scope, shared, scope=scope,
                       kinds=ks))
        out.append(Job('include:' + scope, include, scope=scope,
                       kinds=KINDS if deep else
                       ['good', 'era-day', 'rule-at', 'rules-missing']))
    return out
