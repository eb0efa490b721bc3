"""C30: every output lists what was removed and what was noted."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.props.c27 import same, sameset, yes, strip, parse

BOUNDS = ('up to four zones, three links and three policies, with every '
          'subset in the include list, symbolic rule and UNTIL years, AT, '
          'STDOFF and SAVE seconds (which decide what is removed or noted, '
          'and the texts), symbolic name characters; lists of up to '
          'seven entries and entries of up to 13 reasons; strict and lax; the '
          'three scopes, all languages')
OUTSIDE = ('the wording of the reasons; the notes of policies repeated under '
           'the zones (C27); the counts in the headings (C26)')
COVERS = ['removed-zone', 'removed-link', 'removed-policy', 'notable-policy',
          'notable-zone', 'two-removed', 'two-reasons', 'empty', 'zonelist',
          'link-of-removed', 'not-included', 'strict', 'lax', 'two-zones',
          'many-removed', 'many-notable', 'many-reasons', 'python', 'arduino',
          'c', 'go']
LANGS = ['python', 'arduino', 'c', 'go']
EXT = {'python': 'py', 'arduino': 'h', 'c': 'h', 'go': 'go'}
LISTS = {
    'removed_zones': 'zone_infos', 'removed_links': 'zone_infos',
    'notable_links': 'zone_infos', 'removed_policies': 'zone_policies',
    'notable_policies': 'zone_policies',
}


def heading(s):
    """The list a comment line announces: 'removed_zones', '' or None."""
    if not isinstance(s, str):
        return None
    i = s.find(':')
    if i < 0 or not s[i + 1:].strip().split(' ')[0].isdigit():
        return None
    w = s[:i].split()
    if not w or s[i + 1:].strip().endswith(')'):
        return ''
    kind = {'Unsupported': 'removed', 'Unsuported': 'removed',
            'Notable': 'notable'}.get(w[0])
    if kind is None or w[-1] not in ('zones', 'links', 'policies'):
        return ''
    return kind + '_' + w[-1]


def sections(text, mark):
    """{list: [comment lines]}"""
    out = {}
    cur = None
    for raw in text.split('\n'):
        if len(raw) == 0:
            continue
        s = strip(raw)
        if not yes(raw.startswith(mark)):
            cur = None
            continue
        if len(s) == 0 or yes(s.startswith('---')):
            continue
        h = heading(s)
        if h is not None:
            cur = out.setdefault(h, []) if h else None
            continue
        if cur is not None:
            cur.append(s)
    return out


def check_list(cx, what, got, want):
    """A parsed list against a map of the database."""
    keys = list(want.keys())
    cx.check(sameset([g[0] for g in got], keys), what + ': names')
    for name, reasons, sub in got:
        cx.check(not sub, what + ': nested')
        for k in keys:
            if same(k, name):
                cx.check(sameset(reasons, list(want[k])), what + ': reasons')


def check(cx, res, lang):
    J = res.json
    for m, gen in (('removed_zones', 'zones_map'),
                   ('removed_links', 'links_map'),
                   ('removed_policies', 'policies_map')):
        for k in J[m]:
            cx.check(not any(same(k, g) for g in J[gen]),
                     'an entry is both generated and removed')
    for m in LISTS:
        for k in J[m]:
            rs = list(J[m][k])
            cx.check(len(rs) > 0 and all(
                not isinstance(r, str) or r.strip() for r in rs),
                m + ': an entry without a reason')
            cx.cover('two-reasons', len(rs) > 1)
    for m, base in LISTS.items():
        fn = base + '.' + EXT[lang]
        cx.check(fn in res.files, fn + ' is missing')
        secs = sections(res.files[fn], '#' if lang == 'python' else '//')
        cx.check(m in secs, '%s: no list of %s' % (fn, m))
        if m not in secs:
            continue
        try:
            got = parse(secs[m])
        except IndexError:
            got = None
        if got is None:
            raise Inconclusive('%s: cannot read the list %s' % (fn, m))
        check_list(cx, '%s: %s' % (fn, m), got, J[m])
        cx.cover('empty', not got)
    # the list of zones
    names, last = [], None
    for x in res.files['zones.txt'].split('\n'):
        if len(x) == 0 or yes(x.startswith('#')):
            continue
        names.append(x)
        if last is not None:
            cx.check(last < x, 'zones.txt: order')
        last = x
    cx.check(sameset(names, list(J['zones_map'].keys())),
             'zones.txt: the generated zones')
    cx.cover('zonelist', len(names) > 0)
    cx.cover('removed-zone', len(J['removed_zones']) > 0)
    cx.cover('removed-link', len(J['removed_links']) > 0)
    cx.cover('removed-policy', len(J['removed_policies']) > 0)
    cx.cover('notable-policy', len(J['notable_policies']) > 0)
    cx.cover('notable-zone', len(J['notable_zones']) > 0)
    cx.cover('two-removed', len(J['removed_zones']) > 1)
    cx.cover('two-zones', len(names) > 1)
    cx.cover(lang)


def go(cx, L, lang, scope, start=2000, until_=2004, include=None,
       strict=True):
    res = run_main(cx, L, default_opts(
        scope, start, until_, strict=strict, nostrict=not strict,
        actions='zonedb,json,zonelist', languages=lang,
        skip_bufestimator=lang not in ('arduino', 'c')), include=include)
    if db.generated(res):
        check(cx, res, lang)
        cx.cover('strict' if strict else 'lax')
        return res.json
    return None


def rules(p, f=1998, t=2010, at='2:00', save='1:00'):
    return [rule_line(p, f, t, 3, '8', at, save, 'D'),
            rule_line(p, f, t, 10, '8', '2:00', '0', 'S')]


def include(cx, lang, scope):
    """Zones and links left out on request."""
    c = cx.char('c', 65, 90, exclude='L')
    zn = [cat('Z/', c, 'b'), cat('Z/', c, 'a'), 'Z/Cc']
    ln = [cat('L/', c, 'b'), 'L/Lc', cat('M/', c)]
    L = rules('P') + rules('Q')
    L += zone_lines(zn[0], [('1:00', 'P', 'A%s')])
    L += zone_lines(zn[1], [('1:00', 'Q', 'A%s')])
    L += zone_lines(zn[2], [('1:00', '-', 'A')])
    L += [link_line(zn[0], ln[0]), link_line(zn[0], ln[1]),
          link_line(zn[1], ln[2])]
    cx.assume(c != 'C')
    inc = [n for i, n in enumerate(zn + ln) if cx.flag('i%d' % i)]
    if not inc:
        return
    J = go(cx, L, lang, scope, include=inc)
    if J is not None:
        cx.cover('not-included', len(J['zones_map']) < 3)
        cx.cover('link-of-removed', len(J['removed_links']) > 0 and
                 len(J['zones_map']) == 1)


def years(cx, lang, scope, full):
    """Rule years decide what is removed."""
    if lang in ('arduino', 'c') and not full:
        f, t, u = (cx.int('f', 1997, 2006), cx.int('t', 1997, 2006),
                   cx.int('u', 1998, 2006))
    else:
        f, t, u = (cx.int('f', 1990, 2010), cx.int('t', 1990, 2010),
                   cx.int('u', 1990, 2010))
    cx.assume(f <= t)
    L = rules('P', f, t) + rules('Q') + rules('R', 2005, 2010)
    L += zone_lines('Z/B', [('1:00', 'P', 'A%s', until(u)),
                            ('1:00', 'Q', 'A%s')])
    L += zone_lines('Z/A', [('1:00', 'Q', 'A%s', until(1998, 3)),
                            ('1:00', '-', 'A')])
    L += zone_lines('Z/C', [('1:00', 'R', 'A%s')])
    L += zone_lines('Z/D', [('1:07', '-', 'A')])
    L += [link_line('Z/C', 'L/C'), link_line('Z/A', 'L/A'),
          link_line('Z/B', 'L/B')]
    go(cx, L, lang, scope)


def texts(cx, lang, scope, strict, what):
    """Times decide what is noted or removed."""
    at, save, std = '2:00', '1:00', '1:00'
    if what == 'at':
        at = cat(fmt(cx.int('h', 1, 3)), ':', fmt(cx.int('m', 0, 59), '02'),
                 ':', fmt(cx.int('s', 0, 59), '02'))
    elif what == 'save':
        save = cat(fmt(cx.int('h', 0, 2)), ':', fmt(cx.int('m', 0, 59), '02'))
    elif what == 'std':
        std = cat(fmt(cx.int('h', 0, 3)), ':', fmt(cx.int('m', 0, 59), '02'),
                  ':', fmt(cx.int('s', 0, 59), '02'))
    L = rules('P', at=at, save=save) + rules('R', at='2:07:30')
    L += rules('Q') + rules('S')
    L += zone_lines('Z/B', [(std, 'P', 'A%s')])
    L += zone_lines('Z/A', [('1:00', 'R', 'A')])
    L += zone_lines('Z/C', [('1:00', 'Q', 'A%s')])
    L += [link_line('Z/B', 'L/B'), link_line('Z/C', 'L/C'),
          link_line('Z/B', 'L/A')]
    go(cx, L, lang, scope, strict=strict)


def many(cx, lang, scope):
    """Entries with many reasons; many entries."""
    m = cx.int('m', 10, 12)
    L = []
    for i in range(6):
        at = cat('2:0', str(i), ':', fmt(m + i))
        save = cat('0:2', str(i), ':', fmt(m + i)) if scope == 'complete' \
            else '1:00'
        L.append(rule_line('P', 1998, 2010, 2 + i, '8', at, save, 'D'))
    L.append(rule_line('P', 1998, 2010, 10, '8', '2:00', '0', 'S'))
    L += zone_lines('Z/B', [('1:00', 'P', 'A%s')])
    inc = ['Z/B', 'L/B']
    L.append(link_line('Z/B', 'L/B'))
    for i in range(7):
        p = 'Q%d' % i
        L += rules(p, at=cat('2:00:', fmt(m + i)))
        L += zone_lines('Z/Q%d' % i, [('1:00', p, 'A%s')])
        L.append(link_line('Z/Q%d' % i, 'L/Q%d' % i))
        if i == 3 and cx.flag('in3'):
            inc += ['Z/Q3', 'L/Q3']
    all_ = cx.flag('all')
    J = go(cx, L, lang, scope, strict=False, include=None if all_ else inc)
    if J is not None:
        cx.cover('many-removed', len(J['removed_zones']) > 5)
        cx.cover('many-notable', len(J['notable_policies']) > 6)
        cx.cover('many-reasons', len(list(J['notable_policies']['P'])) > 5)


def jobs(tier):
    full = tier == 'thorough'
    out = []
    for scope in ('basic', 'extended', 'complete'):
        for lang in LANGS:
            s = '%s-%s' % (scope, lang)
            out.append(Job('include-' + s, include, lang=lang, scope=scope))
            out.append(Job('years-' + s, years, lang=lang, scope=scope,
                           full=full))
            out.append(Job('many-' + s, many, lang=lang, scope=scope))
            for strict in (True, False):
                for what in ('at', 'save', 'std'):
                    out.append(Job('%s-%s-%s' % (
                        what, s, 'strict' if strict else 'lax'), texts,
                        lang=lang, scope=scope, strict=strict, what=what))
    return out
