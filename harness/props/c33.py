"""C33: a source within the documented limits is compiled in full."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('sources of two zones (one to five eras), two links and one or two '
          'policies (two to four rules), where one kind of field at a time is '
          'symbolic over everything its documented limits allow: STDOFF of '
          '15:59 on either side of UTC, SAVE and RULES amounts of -1:00 to '
          '2:00, AT and UNTIL times of 0:00 to 25:00 with the suffixes w, s, u or none, every '
          'day and day expression whose date stays in its year, UNTIL and '
          'rule years of 1900 to 2200, windows that start in 1974 (extended) '
          'or 1980 (basic) and later, letters of up to three and formats of '
          'any characters, names, include lists; '
          'a source of 41 zones, one of 25 eras, 40 links and 21 policies, one of '
          '172 rules; multiples of the '
          "scope's granularities; strict and lax; all scopes and languages")
OUTSIDE = ('other sources at the size limits of the tables (C08, C10, C12); months '
           'of basic rules that depend on a day expression; names whose '
           'symbols or ids clash (C14, C15)')
COVERS = ['stdoff', 'save', 'fixed', 'at', 'on-day', 'on-last', 'on-ge',
          'on-le', 'until', 'until-expr', 'era-years', 'rule-years', 'window',
          'format', 'letter', 'names', 'include', 'negative', '25:00', 'dec',
          'jan', 'feb29', 'basic', 'extended', 'complete', 'python',
          'arduino', 'c', 'go', 'lax', 'wide-window', 'one-era',
          'same-year', 'large']
LANGS = ['python', 'arduino', 'c', 'go']
ABC = 'abcdefghijklmnopqrstuvwxyz'


def base(p='P', at='2:00', save='1:00', letter='D', f=1970, t=2060,
         on=('8', '8'), months=(3, 10)):
    return [rule_line(p, f, t, months[0], on[0], at, save, letter),
            rule_line(p, f, t, months[1], on[1], '2:00', '0', 'S')]


def amount(cx, n, lo, hi, step):
    """Text of a multiple of step minutes (seconds below 60) in lo..hi min."""
    if step < 1:
        neg = cx.flag(n + 'neg')
        s = cx.int(n + 's', 0, 59)
        step = 1
    else:
        neg = cx.flag(n + 'neg')
        s = None
    top = -lo if neg else hi
    if top <= 0:
        neg, top = False, hi
    h = cx.int(n + 'h', 0, top // 60)
    m = cx.int(n + 'm', 0, 59)
    if step > 1:
        cx.assume(m % step == 0)
    cx.assume(h * 60 + m <= top if s is None else
              h * 3600 + m * 60 + s <= top * 60)
    cx.cover('negative', neg)
    cx.kept = (neg, h, m)
    return hms(neg, h, m, s)


def clock(cx, n, scope, suffixes):
    h = cx.int(n + 'h', 0, 25)
    m = cx.int(n + 'm', 0, 59)
    s = cx.int(n + 's', 0, 59) if scope == 'complete' else None
    cx.assume(Or(h < 25, And(m == 0, True if s is None else s == 0)))
    cx.cover('25:00', h == 25)
    return cat(hms(False, h, m, s), cx.choice(n + 'x', suffixes))


SUF = ['', 'w', 's', 'u']


def day_expr(cx, n, kind, month, shift=True):
    """ON text whose date exists and stays in its year in every year; within
    the month unless shift."""
    dim = DIM[month - 1]
    if kind == 'day':
        d = cx.int(n + 'd', 1, dim)
        return fmt(d)
    w = cx.choice(n + 'w', DOW[1:])
    if kind == 'last':
        return cat('last', w)
    if kind == 'ge':
        d = cx.int(n + 'd', 1, dim)
        if month == 12 or not shift:
            cx.assume(d + 6 <= dim)
        return cat(w, '>=', fmt(d))
    d = cx.int(n + 'd', 1, dim)
    if month == 1 or not shift:
        cx.assume(d >= 7)
    return cat(w, '<=', fmt(d))


def full(cx, L, zones, links, policies, scope, lang, start=2000, until_=2030,
         strict=True, include=None):
    """The source is compiled and nothing is lost."""
    res = run_main(cx, L, default_opts(
        scope, start, until_, strict=strict, nostrict=not strict,
        actions='json,zonedb', languages=lang,
        skip_bufestimator=lang not in ('arduino', 'c')), include=include)
    cx.check(db.generated(res), 'the source is refused')
    if not db.generated(res):
        return
    J = res.json
    for m, names, what in (('zones_map', zones, 'zone'),
                           ('links_map', links, 'link'),
                           ('policies_map', policies, 'policy')):
        if include is None or what == 'policy':
            cx.check(len(J[m]) == len(names), 'number of %ss' % what)
        for n in names:
            cx.check(n in J[m], 'a %s is not generated' % what)
            cx.check(n not in J['removed_' + (
                'policies' if what == 'policy' else what + 's')],
                'a %s is removed' % what)
    if include is None:
        for m in ('zones', 'links', 'policies'):
            cx.check(len(J['removed_' + m]) == 0, 'something is removed')
    cx.cover(scope)
    cx.cover(lang)
    cx.cover('lax', not strict)
    return res


def usual(cx, zone_a, R, scope, lang, pol=('P',), **kw):
    L = R + zone_a + zone_lines('Z/B', [('0', '-', 'UTC')])
    L += [link_line('Z/A', 'Y/L'), link_line('Z/B', 'A/L')]
    full(cx, L, ['Z/A', 'Z/B'], ['Y/L', 'A/L'], list(pol), scope, lang, **kw)


def offsets(cx, scope, lang, strict):
    off = amount(cx, 'o', -959, 959, 0 if scope == 'complete' else 1)
    cx.cover('stdoff')
    usual(cx, zone_lines('Z/A', [(off, 'P', 'A%sT')]), base(), scope, lang,
          strict=strict)


def saves(cx, scope, lang, strict, what):
    a = amount(cx, 'v', -60, 120, 1 if scope == 'complete' else 15)
    neg, h, m = cx.kept
    if what == 'fixed':
        # 0:00 is written as '-'
        cx.assume(Or(h > 0, m > 0))
        cx.cover('fixed')
        usual(cx, zone_lines('Z/A', [('1:00', a, 'FIX', until(2005)),
                                     ('1:00', 'P', 'A%sT')]),
              base(), scope, lang, strict=strict)
    else:
        cx.cover('save')
        usual(cx, zone_lines('Z/A', [('1:00', 'P', 'A%sT')]),
              base(save=a), scope, lang, strict=strict)


def ats(cx, scope, lang, strict):
    at = clock(cx, 'a', scope, SUF)
    cx.cover('at')
    usual(cx, zone_lines('Z/A', [('1:00', 'P', 'A%sT')]), base(at=at), scope,
          lang, strict=strict)


def ons(cx, scope, lang, kind):
    """The other rule is half a year away."""
    m = cx.forked('mon', 1, 12)
    e = day_expr(cx, 'e', kind, m, shift=scope != 'basic')
    if scope == 'basic' and m == 1:
        # January 1 is not supported
        d = cx.inputs.get('ed')
        if d is not None:
            d = SymInt(d, 1, 31) if cx.sym else d
            cx.assume(d >= 8 if kind == 'le' else d >= 2)
    other = (m + 5) % 12 + 1
    cx.cover('on-' + kind)
    cx.cover('dec', m == 12)
    cx.cover('jan', m == 1)
    usual(cx, zone_lines('Z/A', [('1:00', 'P', 'A%sT')]),
          base(on=(e, '8'), months=(m, other)), scope, lang)


def untils(cx, scope, lang, strict, what):
    y = cx.int('y', 1997, 2035)
    m = cx.forked('mon', 1, 12) if lang in ('python', 'go') else \
        cx.choice('Mon', [2, 12])
    if what == 'time':
        d = cx.int('d', 1, DIM[m - 1])
        e = cat(fmt(d), ' ', clock(cx, 'u', scope, SUF))
        t = cat(fmt(y), ' ', MONTHS[m], ' ', e)
    else:
        y = cx.choice('Y', [1999, 2004, 2010, 2023])
        e = day_expr(cx, 'e', what, m)
        t = until(y, m, e, '2:00')
        cx.cover('until-expr')
    cx.cover('until')
    usual(cx, zone_lines('Z/A', [('1:00', '-', 'AAA', until(1995)),
                                 ('2:00', 'P', 'B%sT', t),
                                 ('1:00', 'P', 'A/B')]),
          base(), scope, lang, strict=strict)


def same_year(cx, scope, lang, what):
    """Two or three UNTILs in one year, one month or one day."""
    x = cx.choice('x', SUF)
    if what == 'month':
        m = cx.int('m', 1, 11)
        m = m if isinstance(m, int) else m.conc()
        k = cx.choice('k', [m + 1, 12])
        t = [until(2005, m, cx.int('d0', 1, 28)),
             until(2005, k, cx.int('d1', 1, 28), cat('0:00', x))]
    elif what == 'day':
        a, b = cx.int('d0', 1, 31), cx.int('d1', 1, 31)
        cx.assume(a < b)
        t = [until(2005, 10, a, '24:00'), until(2005, 10, b, cat('0:00', x))]
        cx.assume(a + 1 < b)
    else:
        a, b = cx.int('h0', 0, 23), cx.int('h1', 0, 24)
        m, n = cx.int('m0', 0, 59), cx.int('m1', 0, 59)
        cx.assume(a * 60 + m < b * 60 + n)
        cx.assume(Or(b < 24, n == 0))
        t = [until(2005, 10, 5, cat(hms(False, a, m), x)),
             until(2005, 10, 5, cat(hms(False, b, n), x))]
    cx.cover('same-year')
    usual(cx, zone_lines('Z/A', [('2:00', 'P', 'B%sT', t[0]),
                                 ('3:00', '-', 'C', t[1]),
                                 ('4:00', '-', 'D', until(2006)),
                                 ('1:00', 'P', 'A/B')]), base(), scope, lang)


def feb29(cx, scope, lang):
    y = cx.choice('Y', [2000, 2004, 2024])
    cx.cover('feb29')
    usual(cx, zone_lines('Z/A', [('2:00', 'P', 'B%sT', until(y, 2, 29)),
                                 ('1:00', 'P', 'A/B')]),
          base(), scope, lang)


def era_years(cx, scope, lang, n):
    """UNTIL years anywhere."""
    ys = [cx.int('y%d' % i, 1900, 2200) for i in range(n - 1)]
    for a, b in zip(ys, ys[1:]):
        cx.assume(a < b)
    es = [('%d:00' % i, 'P' if i % 2 else '-', 'A%d' % i + ('%s' * (i % 2)),
           until(y)) for i, y in enumerate(ys)] + [('0', 'P', 'Z%s')]
    if n > 1:
        # P is used by an era of the window
        cx.assume(ys[-1] <= 2030)
    a = cx.int('start', 1998, 2003)
    cx.cover('era-years')
    cx.cover('one-era', n == 1)
    usual(cx, zone_lines('Z/A', es), base(f=1950), scope, lang, start=a,
          until_=a + 30)


def rule_years(cx, scope, lang, n):
    """FROM and TO years anywhere; each rule has a month of its own."""
    R = [rule_line('P', 1980, 2060 if scope == 'basic' else 'max', 1, '20', '2:00', '0', 'S')]
    for i in range(n):
        slow = lang in ('arduino', 'c')
        lo, hi = (2001, 2033) if slow else \
            (1900, 2200) if scope != 'basic' else (1996, 2034)
        f = cx.int('f%d' % i, lo, hi)
        k = cx.choice('k%d' % i, ['only', 'year'] if scope == 'basic' else
                      ['only', 'max', 'year'][:2 if slow else 3])
        if k == 'year':
            t = f + cx.int('t%d' % i, 0, 100 if scope != 'basic' else 3)
            cx.assume(t <= 2200)
        else:
            t = k
        R.append(rule_line('P', f, t, 3 + 2 * i, '8', '2:00',
                           '1:00' if i % 2 else '0', 'XYZ'[i]))
    cx.cover('rule-years')
    usual(cx, zone_lines('Z/A', [('1:00', 'P', 'A%sT')]), R, scope, lang)


def window(cx, scope, lang, wide):
    lo = 1980 if scope == 'basic' else 1974 if scope == 'extended' else 1900
    if wide:
        a = cx.int('start', lo, 2100)
        b = cx.int('until', lo, 2225 if scope != 'complete' else 2400)
        cx.cover('wide-window', b > 2150)
    else:
        a = cx.int('start', lo, lo + 3)
        b = cx.int('until', lo, lo + 5)
    cx.assume(a <= b)
    cx.cover('window')
    R = base(f=1900, t='max')
    L = R + zone_lines('Z/A', [('1:00', '-', 'AAA', until(1985)),
                               ('2:00', 'P', 'A%sT', until(2150)),
                               ('1:00', 'P', 'B%sT')])
    L += zone_lines('Z/C', [('1:00', 'P', 'A%sT')])
    L += [link_line('Z/A', 'Y/L')]
    full(cx, L, ['Z/A', 'Z/C'], ['Y/L'], ['P'], scope, lang, start=a,
         until_=b)


def texts(cx, scope, lang, what):
    if what == 'letter':
        n = cx.forked('n', 0, 3)
        l1 = cat(*[cx.char('l%d' % i, 65, 90) for i in range(n)]) if n else '-'
        l2 = cat(cx.char('m0', 48, 122, exclude='\\"#'))
        cx.cover('letter')
        R = [rule_line('P', 1970, 2060, 3, '8', '2:00', '1:00', l1),
             rule_line('P', 1970, 2060, 10, '8', '2:00', '0', l2)]
        usual(cx, zone_lines('Z/A', [('1:00', 'P', 'A%sT')]), R, scope, lang)
        return
    c = [cx.int('c%d' % i, 43, 122) for i in range(2)]
    for x in c:
        cx.assume(Or(And(x >= 48, x <= 57), And(x >= 65, x <= 90),
                     And(x >= 97, x <= 122), x == 43, x == 45))
    from pysym.strings import SymStr
    c = [SymStr.char(x) if not isinstance(x, int) else chr(x) for x in c]
    f = cx.choice('f', [cat(c[0], '%s', c[1]), cat(c[0], '/', c[1]),
                        cat(c[0], c[1]), '%s', '%z', cat('%s', c[0]),
                        cat(c[0], c[1], '%s')])
    g = cx.choice('g', [cat(c[0], c[1]), '%z', cat(c[1], '/', c[0])])
    cx.cover('format')
    usual(cx, zone_lines('Z/A', [('1:00', '-', g, until(2005)),
                                 ('1:00', 'P', f)]), base(), scope, lang)


def names(cx, scope, lang, which):
    """Names of zones, links and policies."""
    from pysym.strings import SymStr
    cs = ['x', '1', '-']
    p = 'Q'
    if which < 3:
        x = cx.int('n', 43, 122)
        cx.assume(Or(And(x >= 48, x <= 57), And(x >= 65, x <= 90),
                     And(x >= 97, x <= 122), x == 43, x == 45, x == 95))
        cs[which] = SymStr.char(x) if not isinstance(x, int) else chr(x)
    else:
        p = cx.char('p', 65, 90)
    zn = [cat('Aa/B', cs[0], 'c'), cat('D', cs[1], 'e/f')]
    ln = cat('Gh', cs[2])
    po = cat('P', p)
    L = base(po) + zone_lines(zn[0], [('1:00', po, 'A%s')])
    L += zone_lines(zn[1], [('1:00', '-', 'A')])
    L.append(link_line(zn[1], ln))
    cx.cover('names')
    full(cx, L, zn, [ln], [po], scope, lang)


def includes(cx, scope, lang):
    c = cx.char('c', 65, 90)
    zn = ['Z/A', 'Z/B', 'Z/C', cat('Z/x', c)]
    L = base() + base('Q')
    for i, z in enumerate(zn):
        L += zone_lines(z, [('1:00', 'PQPQ'[i], 'A%s')])
    L += [link_line('Z/B', 'L/B'), link_line(zn[3], 'L/X')]
    inc = [n for i, n in enumerate(zn[:2] + ['L/B', 'L/X', zn[3]])
           if cx.flag('i%d' % i)]
    if not inc:
        return
    ln = []
    gone = []
    for n, z in (('L/B', 'Z/B'), ('L/X', zn[3])):
        if n in inc:
            if any(z is i or isinstance(i, str) and i == z for i in inc):
                ln.append(n)
            else:
                gone.append(n)
    if gone:
        # a link whose target is left out
        return
    zs = [z for z in zn if any(z is i for i in inc)]
    if not zs:
        return
    pol = sorted({'PQPQ'[zn.index(z)] for z in zs}) if all(
        isinstance(z, str) for z in zs) else sorted(
        {'PQPQ'[i] for i, z in enumerate(zn) if any(z is k for k in zs)})
    cx.cover('include')
    full(cx, L, zs, ln, pol, scope, lang, include=inc)


def large(cx, scope, lang, strict):
    """A source of the size of a real one; one rule and one era symbolic."""
    R = []
    at = cx.int('at', 0, 23)
    day = cx.int('day', 1, 28)
    for y in range(1975, 2061):
        a, b = ('8', '2:00') if y != 1990 else (fmt(day), hms(False, at, 0))
        R.append(rule_line('P', y, 'only', 3, a, b, '1:00', 'D'))
        R.append(rule_line('P', y, 'only', 10, '9', '2:00', '0', 'S'))
    for k in range(20):
        R.append(rule_line('Q%02d' % k, 1970, 2060, 4, '8', '2:00', '1:00',
                           'K%d' % k))
        R.append(rule_line('Q%02d' % k, 1970, 2060, 9, '9', '2:00', '0', '-'))
    y0 = cx.int('y0', 1986, 1989)
    es = []
    for i in range(25):
        es.append(('%d:00' % (i % 12), ('P', '-', 'Q03')[i % 3],
                   ('A%s', 'B', 'C%sT')[i % 3]) + (
                       () if i == 24 else
                       (until(y0 if i == 0 else 1988 + 2 * i),)))
    L = R + zone_lines('Z/A', es)
    zs = ['Z/A']
    for k in range(40):
        z = 'Zone%d/%s%d' % (k % 4, ABC[k % 26], k)
        zs.append(z)
        L += zone_lines(z, [('%d:00' % (k % 12), 'Q%02d' % (k % 20), 'T%s')])
    ls = []
    for k in range(40):
        l = 'Link%d/%s%d' % (k % 3, ABC[k % 26], k)
        ls.append(l)
        L.append(link_line(zs[k], l))
    ps = ['P'] + ['Q%02d' % k for k in range(20)]
    res = full(cx, L, zs, ls, ps, scope, lang, start=1985, until_=2055,
               strict=strict)
    if res is None:
        return
    cx.cover('large')
    J = res.json
    # the rules of 1984..2055 and the ones in effect before
    cx.check(len(J['policies_map']['P']['rules']) >= 2 * 72,
             'rules of a long policy are lost')
    cx.check(len(J['zones_map']['Z/A']['eras']) == 25,
             'eras of a long zone are lost')
    for z in zs[1:]:
        cx.check(len(J['zones_map'][z]['eras']) == 1, 'eras of a zone')
    for k in range(20):
        cx.check(len(J['policies_map']['Q%02d' % k]['rules']) in (2, 3),
                 'rules of a policy')


def jobs(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, fn, **kw):
        out.append(Job('-'.join([name, kw['scope'], kw['lang']] + [
            str(kw[k]) for k in kw if k not in ('scope', 'lang', 'strict')] +
            (['lax'] if kw.get('strict') is False else [])), fn, **kw))
    for scope in ('basic', 'extended', 'complete'):
        for lang in LANGS:
            for strict in (True, False) if deep or lang == 'python' else (
                    True,):
                add('stdoff', offsets, scope=scope, lang=lang, strict=strict)
                add('save', saves, scope=scope, lang=lang, strict=strict,
                    what='save')
                add('at', ats, scope=scope, lang=lang, strict=strict)
                if scope != 'basic':
                    add('fixed', saves, scope=scope, lang=lang,
                        strict=strict, what='fixed')
                    add('until', untils, scope=scope, lang=lang,
                        strict=strict, what='time')
            if deep or lang in ('python', 'go'):
                for k in ('day', 'last', 'ge', 'le'):
                    add('on', ons, scope=scope, lang=lang, kind=k)
                    if scope != 'basic' and k != 'day':
                        add('until', untils, scope=scope, lang=lang,
                            strict=True, what=k)
            if scope != 'basic':
                for w in ('month', 'day', 'time'):
                    if deep or lang in ('python', 'go'):
                        add('same-year', same_year, scope=scope, lang=lang,
                            what=w)
                add('feb29', feb29, scope=scope, lang=lang)
            for n in (1, 2, 3, 5) if deep else (1, 3):
                add('era-years', era_years, scope=scope, lang=lang, n=n)
            for n in (1, 2, 3) if deep else (1, 2) if scope != 'basic' and \
                    lang in ('python', 'go') else (1,):
                add('rule-years', rule_years, scope=scope, lang=lang, n=n)
            add('window', window, scope=scope, lang=lang,
                wide=lang not in ('arduino', 'c'))
            for w in ('letter', 'format'):
                add('text', texts, scope=scope, lang=lang, what=w)
            for w in range(4):
                if w == 3 or lang in ('python', 'go') and (
                        deep or (w + LANGS.index(lang)) % 2 == 0):
                    add('names', names, scope=scope, lang=lang, which=w)
            add('include', includes, scope=scope, lang=lang)
            if deep or lang == {'basic': 'arduino', 'extended': 'c',
                                'complete': 'go'}[scope] or \
                    scope == 'extended' and lang == 'python':
                add('large', large, scope=scope, lang=lang, strict=True)
            if deep or lang == 'python' and scope != 'basic':
                add('large', large, scope=scope, lang=lang, strict=False)
    return out
