"""C17: every source zone and link is generated or reported removed."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('three zones, two links and up to three policies with one symbolic '
          'cause of removal each (UNTIL years, days, times and suffixes, '
          'STDOFF, RULES, SAVE, AT, ON, rule years, missing or unusable '
          'policies, missing link targets), strict and not; include lists '
          'with every subset of three zones and two links, and with symbolic '
          'characters, comments and blanks; the three scopes')
OUTSIDE = 'more than one cause of removal at a time, except pairs of policies'
COVERS = ['removed-zone', 'removed-link', 'removed-policy', 'abort', 'all',
          'excluded', 'included', 'unused-after-removal', 'not-found',
          'include-abort', 'empty-include', 'basic-removal']


def check(cx, res, zones, links, pols, include=None):
    """Partition of the source records."""
    J = res.json
    zm, rz, lm, rl = (J['zones_map'], J['removed_zones'], J['links_map'],
                      J['removed_links'])
    pm, rp = J['policies_map'], J['removed_policies']
    for what, names, gen, rem in (('zone', zones, zm, rz),
                                  ('link', links, lm, rl)):
        for n in names:
            g, r = has(gen, n), has(rem, n)
            if g and r:
                cx.fail('a %s is generated and removed' % what)
            elif not g and not r:
                cx.fail('a %s is neither generated nor removed' % what)
            elif r:
                reasons(cx, rem, n, 'removed %s' % what)
                cx.cover('removed-' + what)
        cx.check(len(gen) + len(rem) == len(names),
                 '%ss that are not in the source' % what)
    used = []
    for z in zm:
        for e in zm[z]['eras']:
            p = e['policy_name']
            if p is not None:
                used.append(p)
                if not has(pm, p):
                    cx.fail('a generated zone uses a policy that is not '
                            'generated')
    for p in pm:
        if not any(same(p, u) for u in used) and not has(rp, p):
            cx.fail('a generated policy is not used and has no reason')
    for p in rp:
        reasons(cx, rp, p, 'removed policy')
        cx.cover('removed-policy')


def reasons(cx, m, n, what):
    rs = m[n]
    cx.check(len(rs) >= 1, 'no reason for a ' + what)
    for r in rs:
        cx.check(len(r) > 0, 'empty reason for a ' + what)


def has(m, n):
    return any(same(k, n) for k in m)


def same(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else bool(r)


GOODZ = 'Z/Good'


def base(cause_lines, zones, pols=()):
    """A good zone with a link; a link to the first other zone."""
    L = list(cause_lines)
    L += zone_lines(GOODZ, [('1:00', '-', 'G')])
    L += [link_line(GOODZ, 'L/Good'), link_line(zones[0], 'L/Bad')]
    return L, [GOODZ] + list(zones), ['L/Good', 'L/Bad'], list(pols)


def run(cx, scope, L, zones, links, pols, strict=True, expect=None, **kw):
    res = run_main(cx, L, default_opts(
        scope, 2000, 2030, strict=strict, nostrict=not strict, **kw))
    if db.generated(res):
        check(cx, res, zones, links, pols)
        J = res.json
        if scope != 'basic':
            for n in zones:
                cx.check(n in J['zones_map'], 'a zone is lost in %s scope'
                         % scope)
            for n in links:
                cx.check(n in J['links_map'], 'a link is lost in %s scope'
                         % scope)
        cx.check(GOODZ in J['zones_map'], 'an unrelated zone is lost')
        cx.check('L/Good' in J['links_map'], 'an unrelated link is lost')
        cx.cover('all', len(J['zones_map']) == len(zones))
        if scope == 'basic':
            cx.cover('basic-removal', len(J['zones_map']) < len(zones))
    else:
        cx.check(res.json is None and not res.files,
                 'output in spite of an abort')
        cx.cover('abort')
    return res


def rules(p, **k):
    k = dict(dict(f=1998, t=2004, mon=3, on='8', at='2:00', save='1:00'),
             **k)
    return [rule_line(p, k['f'], k['t'], k['mon'], k['on'], k['at'],
                      k['save'], 'D'),
            rule_line(p, 1997, 2003, 10, '8', '2:00', '0', 'S')]


def cause(cx, scope, what, strict):
    pols = ['P']
    L = []
    if what == 'until':
        y = cx.int('y', 1990, 2040)
        eras = [('1:00', '-', 'A', until(y)), ('2:00', '-', 'B', until(
            cx.int('y2', 1990, 2040))), ('3:00', '-', 'C')]
        pols = []
    elif what == 'closed':
        # no open final era
        eras = [('1:00', '-', 'A', until(cx.int('y', 1990, 2040))),
                ('2:00', '-', 'B', until(cx.int('y2', 1990, 2050)))]
        pols = []
    elif what == 'untilday':
        d = cx.int('d', 0, 40)
        m = cx.int('m', 1, 3)
        eras = [('1:00', '-', 'A', cat('2005 ', lookup_month(cx, m), ' ',
                                       fmt(d))), ('3:00', '-', 'C')]
        pols = []
    elif what == 'untilshift':
        d = cx.int('d', 1, 31)
        k = cx.choice('k', ['Sun>=', 'Mon<='])
        m = cx.choice('m', [1, 6, 12])
        eras = [('1:00', '-', 'A', until(2005, m, cat(k, fmt(d)))),
                ('3:00', '-', 'C')]
        pols = []
    elif what == 'untiltime':
        h = cx.int('h', 0, 26)
        n = cx.int('n', 0, 60)
        eras = [('1:00', '-', 'A', until(2005, 1, 1, cat(
            hms(cx.flag('neg'), h, n), cx.choice('s', [
                '', 'w', 's', 'u', 'g', 'z'])))), ('3:00', '-', 'C')]
        pols = []
    elif what == 'stdoff':
        h = cx.int('h', 0, 33)
        n = cx.int('n', 0, 60)
        s = cx.int('s', 0, 59)
        eras = [(hms(cx.flag('neg'), h, n, s), '-', 'A')]
        pols = []
    elif what == 'rules':
        h = cx.int('h', 0, 3)
        n = cx.int('n', 0, 60)
        eras = [('1:00', hms(cx.flag('neg'), h, n), 'A')]
        pols = []
    elif what == 'missing':
        c = cx.char('c', 80, 90)
        L = rules('P')
        eras = [('1:00', 'P', 'A', until(2005)), ('1:00', c, 'B')]
        cx.cover('not-found', c != 'P')
    elif what == 'save':
        h = cx.int('h', 0, 4)
        n = cx.int('n', 0, 60)
        L = rules('P', save=hms(cx.flag('neg'), h, n))
        eras = [('1:00', 'P', 'A%s')]
    elif what == 'at':
        h = cx.int('h', 0, 26)
        n = cx.int('n', 0, 60)
        L = rules('P', at=cat(hms(cx.flag('neg'), h, n), cx.choice('s', [
            '', 'w', 's', 'u', 'g', 'z', 'x'])))
        eras = [('1:00', 'P', 'A%s')]
    elif what == 'on':
        d = cx.int('d', 0, 40)
        L = rules('P', on=cat(cx.choice('k', ['', 'Sun>=', 'Sun<=', 'Xun>=',
                                              'last']), fmt(d)),
                  mon=cx.choice('m', [1, 3, 12]))
        eras = [('1:00', 'P', 'A%s')]
    elif what == 'years':
        if scope == 'basic':
            f = cx.int('f', 1990, 2040)
            t = f + cx.forked('n', 0, 3)
        else:
            f = cx.int('f', 1960, 2060)
            t = cx.int('t', 1960, 2060)
            cx.assume(f <= t)
        L = [rule_line('P', f, t, 3, '8', '2:00', '1:00', 'D')]
        if cx.flag('second'):
            L.append(rule_line('P', 1985, 1995, 10, '8', '2:00', '0', 'S'))
        eras = [('1:00', 'P', 'A%s')]
    elif what == 'months':
        m = cx.int('m', 1, 12)
        L = rules('P', mon=lookup_month(cx, m))
        eras = [('1:00', 'P', 'A%s')]
    else:
        raise KeyError(what)
    L = L + zone_lines('Z/Bad', eras)
    L, zones, links, pols = base(L, ['Z/Bad'], pols)
    run(cx, scope, L, zones, links, pols, strict)


def lookup_month(cx, m):
    from harness.tz import MONTHS
    return MONTHS[m if isinstance(m, int) else m.conc()]


def pair(cx, scope, strict):
    """A zone that loses one of its policies; another one that shares it."""
    n = cx.int('n', 0, 59)
    k = cx.int('k', 0, 59)
    L = rules('P', save=hms(False, 1, n)) + rules('Q', at=hms(False, 2, k))
    L += zone_lines('Z/Bad', [('1:00', 'P', 'A%s', until(2010)),
                              ('1:00', 'Q', 'B%s')])
    zones = ['Z/Bad']
    if cx.flag('shared'):
        L += zone_lines('Z/Other', [('1:00', 'P', 'A%s')])
        zones.append('Z/Other')
    if cx.flag('unused'):
        L += rules('R')
    L, zones, links, pols = base(L, zones)
    res = run(cx, scope, L, zones, links, pols, strict)
    if db.generated(res) and scope == 'basic':
        cx.cover('unused-after-removal',
                 len(res.json['policies_map']) == 0)


def multi(cx, scope):
    """Two policies in basic scope, one with two transitions in a month."""
    m = cx.int('m', 9, 12)
    mon = lookup_month(cx, m)
    L = rules('P') + rules('Q', mon=mon)
    L += zone_lines('Z/Bad', [('1:00', 'P', 'A%s', until(2010)),
                              ('1:00', 'Q', 'B%s')])
    L, zones, links, pols = base(L, ['Z/Bad'])
    run(cx, scope, L, zones, links, pols)


def target(cx, scope):
    """A link to a zone that may not exist."""
    c = cx.char('c', 65, 90)
    L = zone_lines('Z/Bad', [('1:00', '-', 'A')])
    L += [link_line(cat('Z/', c, 'ad'), 'L/Cond')]
    L, zones, links, pols = base(L, ['Z/Bad'])
    res = run(cx, scope, L, zones, links + ['L/Cond'], pols)
    if db.generated(res):
        g = has(res.json['links_map'], 'L/Cond')
        cx.check((c == 'B') == g, 'link to a missing zone')


ALL = ['Z/A', 'Z/B', 'Z/C', 'L/A', 'L/B']


def src():
    L = []
    for i, z in enumerate(ALL[:3]):
        L += zone_lines(z, [('%d:00' % i, '-', 'X')])
    return L + [link_line('Z/A', 'L/A'), link_line('Z/B', 'L/B')]


def include(cx, scope, form):
    """Every subset of the names."""
    on = [cx.flag('i%d' % i) for i in range(5)]
    inc = [n for n, f in zip(ALL, on) if f]
    if form:
        inc = [x for n in inc for x in ('# ' + n + ' x', '', cat(' ', n, ' '))]
        inc = ['# Z/A', '#Z/B', ''] + inc
    res = run_main(cx, src(), default_opts(scope), include=inc)
    want = [n for n, f in zip(ALL, on) if f] or ALL
    judge(cx, scope, res, want)
    cx.cover('empty-include', not any(on))


def judge(cx, scope, res, want):
    lost = [l for l, z in (('L/A', 'Z/A'), ('L/B', 'Z/B'))
            if l in want and z not in want]
    if not db.generated(res):
        cx.check(bool(lost) and scope != 'basic',
                 'an include list aborts the generation')
        cx.cover('include-abort')
        return
    cx.check(scope == 'basic' or not lost, 'an included link is lost')
    check(cx, res, ALL[:3], ALL[3:], [])
    J = res.json
    for n in ALL:
        gen = n in (J['zones_map'] if n[0] == 'Z' else J['links_map'])
        if n not in want:
            cx.check(not gen, 'a name outside the include list is generated')
            cx.cover('excluded')
        elif n not in lost:
            cx.check(gen, 'an included name is not generated')
            cx.cover('included')
        else:
            cx.check(not gen, 'a link without its zone is generated')


ODD = ['Etc/GMT-1', 'Z/a_b', 'A/B-C/D_e', 'Etc/GMT', 'A/B', 'GMT+3']


def include_odd(cx, scope):
    """Every subset of names with '-', '_', '+' and common prefixes."""
    L = []
    for i, z in enumerate(ODD[:3]):
        L += zone_lines(z, [('%d:00' % i, '-', 'X')])
    L += [link_line(ODD[0], n) for n in ODD[3:]]
    inc = [n for i, n in enumerate(ODD) if cx.flag('i%d' % i)]
    if not inc:
        return
    res = run_main(cx, L, default_opts(scope), include=inc)
    lost = ODD[0] not in inc and any(n in inc for n in ODD[3:])
    if not db.generated(res):
        cx.check(lost and scope != 'basic',
                 'an include list aborts the generation')
        return
    J = res.json
    for i, n in enumerate(ODD):
        cx.check((n in J['zones_map' if i < 3 else 'links_map']) == (
            n in inc and (i < 3 or ODD[0] in inc)), 'included names')
    cx.cover('included')


def unused(cx, scope, strict):
    """Policies of any name that no era of a zone uses."""
    c = cx.int('c', 45, 122)
    cx.assume(Or(between(c, 65, 90), c == 95, between(c, 97, 122)))
    c = chr(c) if isinstance(c, int) else SymStr.char(c)
    pols = [cat(c, 'z'), 'Use-d', '_a', 'Zz']
    L = []
    for p in pols:
        L += rules(p)
    L += zone_lines('Z/A', [('0', 'Use-d', 'X%s')])
    res = run_main(cx, L, default_opts(scope, strict=strict,
                                       nostrict=not strict))
    cx.check(db.generated(res), 'the source is refused')
    if db.generated(res):
        J = res.json
        cx.check(len(J['policies_map']) == 1, 'an unused policy is generated')
        cx.check('Use-d' in J['policies_map'], 'a used policy is lost')
        for p in pols[:1] + pols[2:]:
            cx.check(p in J['removed_policies'],
                     'no reason for an unused policy')


def include_sym(cx, scope):
    """Symbolic characters in an include list entry."""
    e = cat(cx.char('a', 33, 126), '/', cx.char('b', 33, 126))
    inc = ['Z/C', e, 'z/a', 'Z/AA', 'Z']
    res = run_main(cx, src(), default_opts(scope), include=inc)
    want = ['Z/C'] + [n for n in ALL if same(e, n)]
    judge(cx, scope, res, want)


def jobs(tier):
    q = tier == 'quick'
    out = []
    causes = ['until', 'closed', 'untilday', 'untilshift', 'untiltime',
              'stdoff', 'rules', 'missing', 'save', 'at', 'on', 'years',
              'months']
    for sc in ('basic', 'extended', 'complete'):
        for c in causes:
            for st in ([True] if q and sc == 'complete' and c not in (
                    'until', 'stdoff', 'at') else [True, False]):
                out.append(Job('%s-%s%s' % (c, sc, '' if st else '-lax'),
                               cause, scope=sc, what=c, strict=st))
        for st in (True, False):
            out.append(Job('pair-%s-%s' % (sc, st), pair, scope=sc,
                           strict=st))
        out.append(Job('multi-' + sc, multi, scope=sc))
        out.append(Job('target-' + sc, target, scope=sc))
        for f in (0, 1):
            out.append(Job('include-%s-%d' % (sc, f), include, scope=sc,
                           form=f))
        out.append(Job('include-sym-' + sc, include_sym, scope=sc))
        out.append(Job('include-odd-' + sc, include_odd, scope=sc))
        for st in (True, False):
            out.append(Job('unused-%s-%s' % (sc, st), unused, scope=sc,
                           strict=st))
    return out


from pysym.strings import SymStr  # noqa: E402
