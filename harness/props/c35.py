"""C35: notes and removal reasons state the facts."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('one kind of field at a time of a zone of two or three eras or a '
          'policy of two or three rules, symbolic: UNTIL, AT, STDOFF, SAVE '
          'and RULES times of 0:00:00 to 25:59:59 (either sign where '
          'allowed), any day expression of symbolic dates, UNTIL years and '
          'windows, rule years and months, letters of 0..3 and formats of '
          '1..3 symbolic characters; granularities 1, 60, 900, 3600; strict '
          'and lax; the reasons in basic scope (the others abort)')
OUTSIDE = ('the texts of exceptions; reasons of a record that breaks two '
           'rules at once, except in the same field')
COVERS = ['until', 'at', 'stdoff', 'save', 'rules', 'truncated', 'fine',
          'plain', 'shift', 'no-shift', 'eras-dropped', 'format', 'letter',
          'two-notes', 'r-until', 'r-stdoff', 'r-rules', 'r-order', 'r-final',
          'r-old', 'r-policy', 'r-at', 'r-save', 'r-on', 'r-years',
          'r-month', 'r-jan', 'r-unused', 'r-target', 'r-include', 'unused-rule',
          'mixed']


def texts(m, k):
    """Texts of an entry of a map of notes or reasons."""
    return list(m[k]) if k in m else []


def exactly(cx, got, want, what):
    """got: texts; want: [(condition, text)]: the texts whose condition
    holds, each once, and nothing else."""
    for c, t in want:
        cx.check(Implies(c, Or(*[eq(g, t) for g in got])),
                 what + ': one is missing')
    for g in got:
        cx.check(Or(*[And(c, eq(g, t)) for c, t in want]),
                 what + ': one is wrong')
    for i, g in enumerate(got):
        cx.check(Not(Or(*[eq(g, h) for h in got[:i]])), what + ': a duplicate')
    cx.cover('two-notes', len(got) > 1)


def trunc0(v, g):
    return If(v < 0, -(-v // g * g), v // g * g)


def hm(v):
    neg = v < 0
    a = If(neg, 0 - v, v)
    if not isinstance(neg, bool):
        neg = bool(neg)
    return cat('-' if neg else '', fmt(a // 3600, '02'), ':',
               fmt(a // 60 % 60, '02'))


def clock(cx, n, neg=False, lo=0, hi=25, secs=True):
    """(text, seconds): digits of a fixed number."""
    h = cx.int(n + 'h', lo, hi)
    m = cx.int(n + 'm', 0, 59)
    s = cx.int(n + 's', 0, 59) if secs else 0
    v = h * 3600 + m * 60 + s
    t = cat('-' if neg else '', fmt(h, '02'), ':', fmt(m, '02'),
            *([':', fmt(s, '02')] if secs else []))
    return t, (0 - v if neg else v)


def time_notes(what, t, v, g, kind):
    """The notes of a value that is emitted."""
    w = trunc0(v, g)
    out = []
    cut = w != v
    if kind in ('UNTIL', 'AT', 'STDOFF'):
        out.append((v % 900 != 0,
                    cat(what, " '", t, "' not multiple of :15 min")))
    if kind == 'STDOFF':
        out.append((And(v % 900 == 0, v % 1800 != 0),
                    cat(what, " '", t, "' not multiple of :30 min")))
    if kind in ('RULES', 'SAVE'):
        out.append((v < 0, cat(what, " '", t, "' is a negative DST")))
        out.append((And(v > 0, v != 3600),
                    cat(what, " '", t, "' different from 1:00")))
    if kind == 'SAVE':
        out.append((cut, cat(what, " '", t, "' truncated to a multiple of '%d'"
                             ' seconds' % g)))
    else:
        out.append((cut, cat(what, " '", t, "' truncated to '", hm(w), "'")))
    fine = {'UNTIL': ':01 min', 'RULES': ':01 min', 'AT': '1-min',
            'SAVE': '1-min'}.get(kind)
    if fine:
        out.append((And(Not(cut), v % 60 != 0),
                    cat(what, " '", t, "' not multiple of ", fine)))
    return out


DST = rule_line('P', 1990, 2040, 3, '8', '2:00', '1:00', 'D')
STD = rule_line('P', 1990, 2040, 10, '8', '2:00', '0', 'S')


def run(cx, scope, L, strict, start=2000, until_=2030, include=None, **kw):
    return run_main(cx, L, default_opts(
        scope, start, until_, strict=strict, nostrict=not strict, **kw),
        include=include)


def cover(cx, kind, v, g):
    cx.cover(kind.lower())
    cx.cover('truncated', trunc0(v, g) != v)
    cx.cover('fine', And(trunc0(v, g) == v, v % 60 != 0))
    cx.cover('plain', v % 3600 == 0)


OPT = {'UNTIL': 'until_at_granularity', 'AT': 'until_at_granularity',
       'STDOFF': 'offset_granularity', 'RULES': 'delta_granularity',
       'SAVE': 'delta_granularity'}
PRESET = {'UNTIL': (60, 1), 'AT': (60, 1), 'STDOFF': (60, 1),
          'RULES': (900, 60), 'SAVE': (900, 60)}


def field(cx, scope, kind, strict, g, neg=False, two=False):
    """One symbolic time; the notes of a zone or policy that is generated."""
    hi = 3 if kind in ('RULES', 'SAVE') else 15 if kind == 'STDOFF' else 25
    t, v = clock(cx, 'a', neg, 0, hi if not neg or kind == 'STDOFF' else 1)
    kw = {}
    if g:
        kw[OPT[kind]] = g
    else:
        g = PRESET[kind][scope == 'complete']
    extra = []
    if two:
        u, x = clock(cx, 'b', False, 1, 2, False)
        extra = time_notes(kind, u, x, g, kind)
        if kind in ('AT', 'SAVE'):
            # a rule that may begin after the window
            f = cx.int('from', 2028, 2033)
            extra = [(And(f <= 2030, c), n) for c, n in extra]
            cx.cover('unused-rule', f > 2030)
    else:
        f = 2029
    second = u if two else '1:00' if kind in ('SAVE', 'RULES') else '2:00'
    L = [STD, DST]
    z = 'Z/A'
    zone = [('1:00', '-', 'A', until(2005)), ('1:00', 'P', 'A%sT')]
    if kind == 'UNTIL':
        zone = [('1:00', 'P', 'A%sT', cat('2005 Mar 7 ', t)),
                ('3:00', '-', 'B', cat('2006 Mar 7 ', second)),
                ('1:00', 'P', 'A%sT')]
    elif kind == 'STDOFF':
        zone = [(t, 'P', 'A%sT', until(2005)),
                (second, '-', 'B', until(2006)), ('1:00', 'P', 'A%sT')]
    elif kind == 'RULES':
        zone = [('1:00', t, 'X', until(2005)),
                ('3:00', second, 'B', until(2006)), ('1:00', 'P', 'A%sT')]
    elif kind == 'AT':
        L = [STD, rule_line('P', 1990, 2040, 3, '8', t, '1:00', 'D'),
             rule_line('P', f, 2036, 6, '8', second, '1:00', 'E')]
    else:
        L = [STD, rule_line('P', 1990, 2040, 3, '8', '2:00', t, 'D'),
             rule_line('P', f, 2036, 6, '8', '2:00', second, 'E')]
    L = L + zone_lines(z, zone) + zone_lines('Z/B', [('1:00', '-', 'B')])
    res = run(cx, scope, L, strict, **kw)
    if not db.generated(res):
        return
    J = res.json
    pol = kind in ('AT', 'SAVE')
    if ('P' not in J['policies_map']) if pol else z not in J['zones_map']:
        return
    cover(cx, kind, v, g)
    mine = time_notes(kind, t, v, g, kind)
    if kind == 'RULES':
        cx.check(v != 0, 'a fixed RULES amount of zero')
    exactly(cx, texts(J['notable_policies' if pol else 'notable_zones'],
                      'P' if pol else z), mine + extra,
            'notes of a ' + ('policy' if pol else 'zone'))
    exactly(cx, texts(J['notable_zones' if pol else 'notable_policies'],
                      z if pol else 'P'), [], 'notes of the other')
    exactly(cx, texts(J['notable_zones'], 'Z/B'), [],
            'notes of another zone')


def mixed(cx, scope, strict):
    """Facts of several kinds of one zone and one policy."""
    g = 60 if scope != 'complete' else 1
    def one(n, odd):
        return (('1:%02d' % odd, 3600 + odd * 60) if cx.flag(n)
                else ('1:00', 3600))
    a, v = one('a', 7)
    b, w = one('b', 8)
    shifted = cx.flag('s')
    fixed, long_ = not shifted, v != 3600
    end = cx.int('end', 2008, 2014)
    zone = [(a, 'P', 'AB' if fixed else 'A%sT',
             cat(until(2003, 4), ' ', 'Sun>=29' if shifted else '3', ' ', b)),
            ('5:00', '-', 'B', until(2010)), ('6:00', '-', 'C', until(2011)),
            ('7:00', '-', 'D')]
    c, x = one('c', 9)
    d, y = one('d', 15 if strict else 16)
    if scope == 'basic':
        zone[0] = zone[0][:3] + (until(2003),)
        w, shifted = 0, False
    L = [STD, rule_line('P', 1990, 2040, 3, '8', c, d, 'XY' if long_ else 'D')]
    L += zone_lines('Z/A', zone)
    res = run(cx, scope, L, strict, until_=end)
    if not db.generated(res) or 'Z/A' not in res.json['zones_map'] or \
            'P' not in res.json['policies_map']:
        return
    k = If(end < 2009, 2, If(end < 2010, 1, 0))
    exactly(cx, texts(res.json['notable_zones'], 'Z/A'), time_notes(
        'STDOFF', a, v, g, 'STDOFF') + (time_notes(
            'UNTIL', b, w, g, 'UNTIL') if scope != 'basic' else []) + [
        (fixed, NOFMT), (shifted, "until_month shifted from '4' to '5' due "
                         "to Sun>=29"),
        (k > 0, cat('Removed ', fmt(k), ' zone eras after year ',
                    fmt(end)))], 'notes of a zone')
    exactly(cx, texts(res.json['notable_policies'], 'P'), time_notes(
        'AT', c, x, g, 'AT') + time_notes(
            'SAVE', d, y, 900 if g == 60 else 60, 'SAVE') + [
        (long_, "LETTER 'XY' not single character")], 'notes of a policy')
    cx.cover('mixed', And(v % 900 != 0, fixed, k > 0))


def shift(cx, kind, mon, scope):
    """An UNTIL day that moves into another month."""
    y = cx.choice('y', [2003, 2004, 2009, 2010, 2011, 2012, 2024])
    w = cx.choice('w', [1, 4, 7])
    n = cx.int('n', *((20, DIM[mon - 1]) if kind == 'ge' else (1, 12))) \
        if kind != 'last' else None
    op = {'ge': '>=', 'le': '<='}.get(kind)
    e = cat('last', DOW[w]) if kind == 'last' else \
        cat(DOW[w], op, fmt(n, '02') if kind == 'ge' else fmt(n))
    yy, mm, dd = day_expr(y, mon, kind, w, n)
    L = [DST, STD] + zone_lines('Z/A', [
        ('1:00', '-', 'A', until(1999, 5)),
        ('2:00', 'P', 'B%sT', cat(until(y, mon), ' ', e)),
        ('1:00', 'P', 'A%sT')])
    res = run(cx, scope, L, True)
    if not db.generated(res):
        cx.check(yy != y, 'a valid day is refused')
        return
    exactly(cx, texts(res.json['notable_zones'], 'Z/A'), [
        (mm != mon, cat("until_month shifted from '%d' to '" % mon, fmt(mm),
                        "' due to ", e))], 'notes of a zone')
    cx.cover('shift', mm != mon)
    cx.cover('no-shift', mm == mon)


def dropped(cx, scope, n):
    """Eras after the window."""
    end = cx.int('until', 2005, 2040)
    ys = [cx.int('y%d' % i, 2003, 2060) for i in range(n)]
    for a, b in zip(ys, ys[1:]):
        cx.assume(a < b)
    L = zone_lines('Z/A', [('%d:00' % i, '-', 'ABCDEFG'[i], until(y))
                           for i, y in enumerate(ys)] + [('9:00', '-', 'Z')])
    L += zone_lines('Z/B', [('0', '-', 'B')])
    res = run(cx, scope, L, True, until_=end)
    if not db.generated(res):
        cx.check(False, 'a valid source is refused')
        return
    k = 0
    for y in ys:
        k = k + If(y > end + 1, 1, 0)
    exactly(cx, texts(res.json['notable_zones'], 'Z/A'), [
        (k > 0, cat('Removed ', fmt(k), ' zone eras after year ',
                    fmt(end)))], 'notes of a zone')
    exactly(cx, texts(res.json['notable_zones'], 'Z/B'), [],
            'notes of another zone')
    cx.cover('eras-dropped', k > 0)


NOFMT = "RULES not fixed but FORMAT is missing '%s' or '/'"


def formats(cx, scope, n):
    cs = [cx.int('c%d' % i, 43, 122) for i in range(n)]
    for c in cs:
        cx.assume(Or(between(c, 47, 57), between(c, 65, 90),
                     between(c, 97, 122), c == 43, c == 45))
    f = cat(*[chr(c) if isinstance(c, int) else SymStr.char(c) for c in cs])
    tail = cx.choice('t', ['', '%s'])
    r = cx.choice('r', ['P', '-'])
    if tail:
        cx.assume(r == 'P')
    L = [DST, STD] + zone_lines('Z/A', [('1:00', '-', 'A', until(2003)),
                                        ('2:00', r, cat(f, tail))])
    L += zone_lines('Z/P', [('1:00', 'P', 'A%sT')])
    res = run(cx, scope, L, True)
    if not db.generated(res):
        cx.check(False, 'a valid source is refused')
        return
    slash = Or(*[c == 47 for c in cs])
    exactly(cx, texts(res.json['notable_zones'], 'Z/A'), [
        (And(r == 'P', not tail, Not(slash)), NOFMT)], 'notes of a zone')
    exactly(cx, texts(res.json['notable_zones'], 'Z/P'), [],
            'notes of another zone')
    cx.cover('format')


def letters(cx, scope, n, dash):
    cs = [cx.char('c%d' % i, 65, 90) for i in range(n)]
    l = cat(*cs) if n else '-'
    y = cx.int('y', 1985, 2035)
    # each rule has a month of its own
    L = [rule_line('P', 1980, 2040, 10, '8', '2:00', '0',
                   'XYZ' if dash else '-'),
         rule_line('P', y, 'only', 3, '8', '2:00', '1:00', l)]
    L += zone_lines('Z/A', [('1:00', 'P', 'A%sT')])
    res = run(cx, scope, L, True)
    if not db.generated(res):
        cx.check(False, 'a valid source is refused')
        return
    # before the window it is the latest one
    kept = y <= 2030
    t = cat("LETTER '", l, "' not single character")
    want = [(kept, t)] if n > 1 else []
    if dash:
        want.append((True if n < 2 or n != 3 else Not(eq(l, 'XYZ')),
                     "LETTER 'XYZ' not single character"))
    got = texts(res.json['notable_policies'], 'P')
    if dash and n == 3:
        want = [(And(kept, Not(eq(l, 'XYZ'))), t),
                (True, "LETTER 'XYZ' not single character")]
    exactly(cx, got, want, 'notes of a policy')
    cx.cover('letter')


# -- reasons ------------------------------------------------------------------

def reason(cx, res, kind, name, want, what):
    """The entry is removed with exactly the reasons, or generated."""
    J = res.json
    if not db.generated(res):
        cx.check(False, 'basic scope refuses a source')
        return
    got = texts(J['removed_' + kind], name)
    if name in J[kind + '_map']:
        cx.check(not got, 'an entry is generated and removed')
        return
    exactly(cx, got, want, 'reasons of a removed entry')
    cx.cover('r-' + what)


def other(p='Q'):
    return [rule_line(p, 1990, 2040, 4, '8', '2:00', '1:00', 'D'),
            rule_line(p, 1990, 2040, 9, '8', '2:00', '0', 'S')] + \
        zone_lines('Z/Q', [('1:00', p, 'A%sT')])


def zone_reason(cx, what, g=0):
    kw = {}
    z = None
    start, end = 2000, 2030
    if what == 'until':
        z = [('1:00', '-', 'A', until(2005, cx.int('m', 2, 12).conc()
                                      if cx.sym else cx.int('m', 2, 12))),
             ('2:00', '-', 'B')]
        want = [(True, 'UNTIL contains month/day/time')]
    elif what == 'stdoff':
        t, v = clock(cx, 'a', cx.flag('neg'), 0, 40)
        z = [(t, '-', 'A')]
        bad = Or(v >= 26 * 3600, v <= -26 * 3600)
        g = g or 60
        kw['offset_granularity'] = g
        cut = trunc0(v, g) != v
        # 25:59:59 fits
        want = [(bad, cat("invalid STDOFF '", t, "'")),
                (And(Not(bad), cut), cat(
                    "STDOFF '", t, "' must be multiples of '%d' seconds" %
                    g))]
    elif what == 'rules':
        t, v = clock(cx, 'a', False, 0, 30)
        z = [('1:00', t, 'A')]
        want = [(True, cat("unsupported fixed RULES '", t, "'"))]
    elif what == 'order':
        a, b = cx.int('a', 2003, 2020), cx.int('b', 2003, 2020)
        z = [('1:00', '-', 'A', until(a)), ('2:00', '-', 'B', until(b)),
             ('3:00', '-', 'C')]
        want = [(b <= a, cat('non increasing UNTIL: ', fmt(b),
                             '-01-01 0s'))]
    elif what == 'final':
        a = cx.int('a', 2003, 2031)
        z = [('1:00', '-', 'A', until(a))]
        want = [(True, cat('invalid final UNTIL: ', fmt(a), '-01-01 0s'))]
    elif what == 'old':
        a = cx.int('a', 1950, 1990)
        start = cx.int('start', 1990, 2020)
        z = [('1:00', '-', 'A', until(a))]
        want = [(True, cat('All eras are too old, < year ', fmt(start)))]
        cx.assume(a < start - 1)
    elif what == 'policy':
        p = cx.char('p', 65, 79)
        z = [('1:00', '-', 'A', until(2005)), ('1:00', p, 'A%s')]
        want = [(True, cat("policy '", p, "' not found"))]
    L = other() + zone_lines('Z/A', z)
    L.append(link_line('Z/A', 'L/A'))
    res = run(cx, 'basic', L, True, start=start, until_=end, **kw)
    reason(cx, res, 'zones', 'Z/A', want, what)
    if db.generated(res) and 'Z/A' not in res.json['zones_map']:
        exactly(cx, texts(res.json['removed_links'], 'L/A'), [
            (True, 'Target Zone "Z/A" missing')], 'reasons of a link')
        cx.cover('r-target')


def policy_reason(cx, what, g=0, k=0, m=0):
    kw = {}
    extra = []
    start = 2000
    zone = zone_lines('Z/A', [('1:00', 'P', 'A%sT')])
    if what == 'at':
        neg = cx.flag('neg')
        t, v = clock(cx, 'a', neg, 0, 30)
        g = g or 60
        kw['until_at_granularity'] = g
        r = rule_line('P', 1990, 2040, 3, '8', t, '1:00', 'D')
        bad = Or(v >= 26 * 3600, v <= -26 * 3600)
        want = [(bad, cat("invalid AT '", t, "'")),
                (And(Not(bad), v < 0), cat("negative AT '", t, "'")),
                (And(Not(bad), v >= 0, trunc0(v, g) != v), cat(
                    "AT '", t, "' must be multiples of '%d' seconds" % g))]
    elif what == 'save':
        neg = cx.flag('neg')
        t, v = clock(cx, 'a', neg, 0, 30)
        g = g or 900
        kw['delta_granularity'] = g
        r = rule_line('P', 1990, 2040, 3, '8', '2:00', t, 'D')
        bad = Or(v >= 26 * 3600, v <= -26 * 3600)
        cut = trunc0(v, g) != v
        want = [(bad, cat("invalid SAVE '", t, "'")),
                (And(Not(bad), cut), cat(
                    "SAVE '", t, "' must be a multiple of '%d' seconds" % g)),
                (And(Not(bad), Not(cut), Or(v < -3600, v >= 3 * 3600)), cat(
                    "SAVE '", t, "' too large for 4-bits"))]
    elif what == 'on':
        d = cx.int('d', 1, 99)
        # (a date that does not exist may abort)
        cx.assume(Or(k not in (1, 2), d <= DIM[m - 1], d > 31))
        e = (fmt(d), cat('Sun>=', fmt(d)), cat('Sun<=', fmt(d)),
             cat('Sux>=', fmt(d)), cat('last', cx.choice(
                 'w', ['Sun', 'Sum', ''])), cat('Sun=', fmt(d)))[k]
        ok = (d <= 31, d <= 31, d <= 31, False,
              eq(e, 'lastSun'), False)[k]
        r = rule_line('P', 1990, 2040, m, e, '2:00', '1:00', 'D')
        want = [(Not(ok), cat("invalid on_day '", e, "'"))]
        if k == 1 and m == 12:
            want.append((And(ok, d >= 26), cat(
                "cannot shift '", e, "' from Dec to next year")))
        if k == 2 and m == 1:
            want.append((And(ok, d <= 6), cat(
                "cannot shift '", e, "' from Jan to prev year")))
        if m == 1:
            # a transition on January 1
            return jan(cx, r, k, d, want)
    elif what == 'years':
        f, t = cx.int('f', 2000, 2060), cx.int('t', 2000, 2060)
        cx.assume(f <= t)
        L = [rule_line('P', f, t, 3, '8', '2:00', '1:00', 'D'),
             rule_line('P', f, t, 10, '8', '2:00', '0', 'S')]
        res = run(cx, 'basic', L + zone + other(), True)
        return reason(cx, res, 'policies', 'P', [
            (f >= 2031, 'All rules too old or too new')], 'years')
    elif what == 'unused':
        used = cx.flag('used')
        L = [DST, STD] + (zone if used else [])
        res = run(cx, 'basic', L + other(), True)
        return reason(cx, res, 'policies', 'P', [(not used, 'unused')],
                      'unused')
    elif what == 'month':
        a, b = cx.int('a', 3, 5), cx.int('b', 3, 5)
        a, b = [x if isinstance(x, int) else x.conc() for x in (a, b)]
        f = cx.int('f', 2002, 2005)
        t = cx.int('t', 2002, 2005)
        cx.assume(f <= t)
        L = [STD, rule_line('P', 2001, 2003, a, '8', '2:00', '1:00', 'D'),
             rule_line('P', f, t, b, '18', '2:00', '0', 'E')]
        res = run(cx, 'basic', L + zone + other(), True)
        return reason(cx, res, 'policies', 'P', [
            (And(a == b, f <= y, y <= t),
             "Found 2 transitions in year/month '%d-%02d'" % (y, a))
            for y in (2003,)] + [
            (And(a == b, f <= y, y <= t, t < y + 1),
             "Found 2 transitions in year/month '%d-%02d'" % (y, a))
            for y in (2002,)], 'month')
    L = [STD, r] + zone + other()
    res = run(cx, 'basic', L, True, start=start, **kw)
    reason(cx, res, 'policies', 'P', want, what)
    if db.generated(res) and 'P' not in res.json['policies_map']:
        exactly(cx, texts(res.json['removed_zones'], 'Z/A'), [
            (True, "policy 'P' not found")], 'reasons of a zone')


def jan(cx, r, k, d, want):
    L = [STD, r] + zone_lines('Z/A', [('1:00', 'P', 'A%sT')]) + other()
    res = run(cx, 'basic', L, True)
    if k in (0, 1):
        want.append((d == 1, 'Transition on Jan 1 not supported '
                     '(1990-01-01)'))
    elif k == 2:
        want.append((d == 7, 'Transition on Jan 1 not supported '
                     '(1990-01--7)'))
    reason(cx, res, 'policies', 'P', want, 'jan')


def include(cx, scope):
    c = cx.char('c', 65, 90)
    zs, ls = ['Z/A', cat('Z/', c, 'b')], ['L/A', cat('L/', c, 'b')]
    L = zone_lines(zs[0], [('0', '-', 'A')]) + zone_lines(
        zs[1], [('1:00', '-', 'B')])
    L += [link_line(zs[0], ls[0]), link_line(zs[1], ls[1])]
    on = [cx.flag('i%d' % i) for i in range(4)]
    inc = [n for n, f in zip(zs + ls, on) if f]
    if not inc:
        return
    res = run(cx, scope, L, True, include=inc)
    if not db.generated(res):
        return
    J = res.json
    for i in range(2):
        exactly(cx, texts(J['removed_zones'], zs[i]), [
            (not on[i], 'Zone missing from include list')],
            'reasons of a zone')
        exactly(cx, texts(J['removed_links'], ls[i]), [
            (not on[i + 2], 'Link missing from include list'),
            (on[i + 2] and not on[i], cat('Target Zone "', zs[i],
                                          '" missing'))],
            'reasons of a link')
    cx.cover('r-include')


def jobs(tier):
    full = tier == 'thorough'
    out = []

    def add(name, fn, **kw):
        out.append(Job(name, fn, **kw))
    for kind in ('UNTIL', 'AT', 'STDOFF', 'SAVE', 'RULES'):
        for scope in ('basic', 'extended', 'complete'):
            if scope == 'basic' and kind in ('UNTIL', 'RULES'):
                continue
            for strict in (True, False):
                gs = (0, 1, 60, 900, 3600) if full else \
                    (0, 900 if strict else 3600) if scope == 'extended' \
                    else (0,)
                for g in gs:
                    for neg in (False, True):
                        if neg and kind in ('UNTIL', 'AT'):
                            continue
                        two = (strict or full) and not neg
                        add('%s-%s-%d-%s%s' % (
                            kind, scope, g, 'strict' if strict else 'lax',
                            '-neg' if neg else ''), field, scope=scope,
                            kind=kind, strict=strict, g=g, neg=neg, two=two)
    for scope in ('extended', 'complete'):
        for kind in ('last', 'ge', 'le'):
            for mon in (2, 5, 11) if not full else range(2, 12):
                add('shift-%s-%s-%d' % (scope, kind, mon), shift, scope=scope,
                    kind=kind, mon=mon)
    for scope in ('basic', 'extended', 'complete'):
        for n in (1, 2, 3) + ((5,) if full else ()):
            add('dropped-%s-%d' % (scope, n), dropped, scope=scope, n=n)
            add('format-%s-%d' % (scope, n), formats, scope=scope, n=n)
        for n in range(4):
            for dash in (False, True):
                add('letter-%s-%d-%d' % (scope, n, dash), letters,
                    scope=scope, n=n, dash=dash)
        for strict in (True, False):
            add('mixed-%s-%d' % (scope, strict), mixed, scope=scope,
                strict=strict)
        add('include-' + scope, include, scope=scope)
    for what in ('until', 'stdoff', 'rules', 'order', 'final', 'old',
                 'policy'):
        for g in (0, 900) if what == 'stdoff' else (0,):
            add('zone-%s-%d' % (what, g), zone_reason, what=what, g=g)
    for k in range(6):
        for m in (1, 6, 12):
            add('policy-on-%d-%d' % (k, m), policy_reason, what='on', k=k,
                m=m)
    for what in ('at', 'save', 'years', 'unused', 'month'):
        for g in (0, 1, 900) if what == 'at' else \
                (0, 60, 3600) if what == 'save' else (0,):
            add('policy-%s-%d' % (what, g), policy_reason, what=what, g=g)
    return out


from pysym.strings import SymStr  # noqa: E402
