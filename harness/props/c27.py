"""C27: zone notes include the notes of every policy the zone uses."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('two or three zones of up to three eras, each era with any of three '
          'policies, a fixed amount or none, zones of four policies, policies '
          'with up to ten notes; symbolic UNTIL years and window '
          '(which decide the generated eras), AT seconds, SAVE, LETTER and '
          'STDOFF seconds (which decide the notes and their texts); lax and '
          'strict; the three scopes, all languages')
OUTSIDE = 'which facts deserve a note (C07 covers truncation)'
COVERS = ['zone-note', 'policy-note', 'both', 'two-policies', 'none',
          'repeated-policy', 'dropped-policy', 'two-notes', 'removed-note',
          'text', 'policy-without-note', 'shared-policy', 'strict',
          'many-policies', 'many-notes']
LANGS = ['python', 'arduino', 'c', 'go']


def same(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else bool(r)


def sameset(a, b):
    """Both lists have the same elements, each once."""
    if len(a) != len(b):
        return False
    return And(*([Or(*[eq(x, y) for y in b]) for x in a] +
                 [Or(*[eq(x, y) for x in a]) for y in b]))


def isdict(x):
    return hasattr(x, 'keys')


def find(m, k):
    """Entry of a map whose keys may be symbolic, or None."""
    if m is None:
        return None
    return m[k] if k in m else None


def expected(J, zone):
    """(own notes, {policy: notes}) of a zone."""
    own = find(J['notable_zones'], zone)
    own = [] if own is None else list(own)
    pol = {}
    z = find(J['zones_map'], zone)
    used = []
    if z is not None:
        for e in z['eras']:
            p = e['policy_name']
            if p is not None and not any(same(p, q) for q in used):
                used.append(p)
    for p in used:
        n = find(J['notable_policies'], p)
        if n is not None and len(n) > 0:
            pol[p] = list(n)
    return own, pol, used


def check(cx, res, names):
    J = res.json
    M = J['merged_notable_zones']
    want = {}
    for n in names:
        own, pol, used = expected(J, n)
        got = find(M, n)
        if got is None or len(got) == 0:
            cx.check(not own and not pol, 'the notes of a zone are missing')
            cx.cover('none', not own and not pol)
            continue
        want[n] = (own, pol)
        texts = [x for x in got if not isdict(x)]
        maps = [x for x in got if isdict(x)]
        cx.check(sameset(texts, own), 'notes of the zone itself')
        keys = [k for m in maps for k in m.keys()]
        cx.check(sameset(keys, list(pol.keys())),
                 'policies in the notes of a zone')
        for m in maps:
            for k in m.keys():
                if k in pol:
                    cx.check(sameset(list(m[k]), pol[k]),
                             'notes of a policy in a zone')
                    cx.cover('two-notes', len(pol[k]) > 1)
        cx.cover('zone-note', bool(own))
        cx.cover('policy-note', bool(pol))
        cx.cover('both', bool(own) and bool(pol))
        cx.cover('two-policies', len(pol) > 1)
        cx.cover('policy-without-note', len(pol) < len(used) and bool(pol))
        cx.cover('removed-note', find(J['zones_map'], n) is None)
    for n in M.keys():
        cx.check(any(same(n, k) for k in names), 'notes of an unknown zone')
    zp = J['zones_to_policies']
    if zp is not None:
        for n in names:
            own, pol, used = expected(J, n)
            got = find(zp, n)
            cx.check(sameset([] if got is None else list(got), used),
                     'policies of a zone')
    return want


def strip(line):
    s = line.strip()
    for c in ('//', '#'):
        if yes(s.startswith(c)):
            s = s[len(c):].strip()
            break
    return s


def yes(x):
    return x if isinstance(x, bool) else bool(x)


def section(text):
    """The comment lines of the list of notable zones."""
    out, on = [], False
    for raw in text.split('\n'):
        if not on:
            if isinstance(raw, str) and 'Notable zones:' in raw:
                on = True
            continue
        s = strip(raw)
        if isinstance(s, str) and 'orted links:' in s:
            return out
        if len(s) == 0 or yes(s.startswith('-')):
            continue
        out.append(s)
    return None


def parse(lines):
    """[(name, [reason], [(policy, [reason])])]"""
    out = []
    stack = []
    for s in lines:
        if same(s, '}'):
            stack.pop()
            continue
        if yes(s.endswith('{')):
            item = (s[:-1].strip(), [], [])
            (stack[-1][2] if stack else out).append(item)
            stack.append(item)
        elif yes(s.endswith(',')):
            stack[-1][1].append(s[:-1])
        elif yes(s.endswith('}')):
            i = s.find(' {')
            item = (s[:i], [s[i + 2:-1]], [])
            (stack[-1][2] if stack else out).append(item)
        else:
            return None
    return out if not stack else None


def check_text(cx, res, lang, want):
    fn = 'zone_infos.' + {'python': 'py', 'arduino': 'h', 'c': 'h',
                          'go': 'go'}[lang]
    if fn not in res.files:
        return
    ls = section(res.files[fn])
    if ls is None:
        return
    try:
        got = parse(ls)
    except IndexError:
        got = None
    if got is None:
        return
    cx.check(sameset([g[0] for g in got], list(want.keys())),
             fn + ': zones in the list of notes')
    for name, texts, pols in got:
        for k in want:
            if not same(k, name):
                continue
            own, pol = want[k]
            cx.check(sameset(texts, own), fn + ': notes of a zone')
            cx.check(sameset([p[0] for p in pols], list(pol.keys())),
                     fn + ': policies in the notes')
            for p, ts, _ in pols:
                if p in pol:
                    cx.check(sameset(ts, pol[p]), fn + ': notes of a policy')
    cx.cover('text')


def rules(cx, p, noted, scope, sym=True):
    """Three kinds of notes, when noted."""
    sec = cx.int('sec' + p, 10, 59) if sym else 30
    at = cat('2:00:', fmt(sec)) if noted else '2:00'
    save = '1:00'
    if scope == 'complete' and noted:
        save = cat('0:20:', fmt(cx.int('sv' + p, 10, 59) if sym else 30))
    return [rule_line(p, 1970, 2050, 3, '8', at, save, 'D'),
            rule_line(p, 1970, 2050, 10, '8', '2:00', '0', 'S')]


def go(cx, L, names, lang, scope, start=2000, until_=2030, strict=False):
    res = run_main(cx, L, default_opts(
        scope, start, until_, strict=strict, nostrict=not strict,
        actions='zonedb,json', languages=lang,
        skip_bufestimator=lang not in ('arduino', 'c')))
    if not db.generated(res):
        return res
    want = check(cx, res, names)
    check_text(cx, res, lang, want)
    return res


def fmt_of(r):
    return 'A%s' if r in 'PQR' else 'A'


def eras(cx, lang, scope, n):
    """Which policies, which notes, which eras."""
    L = []
    note = {p: cx.flag('note' + p) for p in 'PQ'}
    note['R'] = True
    for p in 'QRP':
        L += rules(cx, p, note[p], scope)
    opts = ['P', 'Q', '-'] if n == 3 else ['P', 'Q', 'R', '-']
    es = []
    us = [cx.int('u0', 1990, 2012), cx.int('u1', 1990, 2012)][:n - 1]
    if n == 3:
        cx.assume(us[0] < us[1])
    pick = [cx.choice('p%d' % i, opts) for i in range(n)]
    for i in range(n):
        es.append(('1:00', pick[i], fmt_of(pick[i])) +
                  ((until(us[i]),) if i < n - 1 else ()))
    L += zone_lines('Z/B', es)
    L += zone_lines('Z/A', [('1:00', 'R', 'A%s')])
    L += [link_line('Z/B', 'L/A')]
    res = go(cx, L, ['Z/A', 'Z/B'], lang, scope, 2000, 2005)
    if db.generated(res):
        g = [e['policy_name'] for e in res.json['zones_map']['Z/B']['eras']]
        g = [x for x in g if x is not None]
        cx.cover('repeated-policy', len(g) > len(set(g)))
        cx.cover('dropped-policy', len(g) < len([p for p in pick
                                                 if p != '-']))
        cx.cover('shared-policy', 'R' in g)


def zone_notes(cx, lang, scope, strict):
    """Notes of the zones, with or without noted policies."""
    L = rules(cx, 'P', cx.flag('noteP') and not strict, scope)
    L += rules(cx, 'Q', False, scope)
    s = cx.int('s', 0, 59)
    std = cat('1:00:', fmt(s, '02'))
    fmt_ = cx.choice('f', ['A%s', 'A', 'A/B'])
    L += zone_lines('Z/C', [(std if scope != 'complete' else '1:07', '-',
                             'L', until(2003)),
                            ('1:07', 'P', fmt_, until(2006)),
                            ('1:00', 'Q', 'A%s')])
    L += zone_lines('Z/A', [('1:00', 'P', fmt_)])
    L += zone_lines('Z/B', [('2:00', cx.choice('r', ['-', '0:30', '1:00',
                                                     '0:25:30']), 'F')])
    go(cx, L, ['Z/A', 'Z/B', 'Z/C'], lang, scope, strict=strict)
    cx.cover('strict', strict)


def letters(cx, lang, scope):
    """Notes from long letters and DST amounts different from one hour."""
    n = cx.forked('n', 1, 3)
    h = cx.int('h', 1, 2)
    L = [rule_line('P', 1970, 2050, 3, '8', '2:00', cat(fmt(h), ':00'),
                   cat('D', 'X' * (n - 1))),
         rule_line('P', 1970, 2050, 10, '8', '2:00', '0', 'S')]
    L += rules(cx, 'Q', True, scope, sym=False)
    f = cx.int('year', 1995, 2010)
    L += zone_lines('Z/B', [('1:00', 'Q', 'A%s', until(f)),
                            ('1:00', 'P', 'A%s')])
    L += zone_lines('Z/A', [('1:00', 'P', 'A%s', until(f + 1)),
                            ('1:00', '-', 'A')])
    go(cx, L, ['Z/A', 'Z/B'], lang, scope)


def many(cx, lang, scope):
    """Up to four policies in a zone, and many notes of each entry."""
    L = []
    m = cx.int('m', 10, 12)
    n = 5
    for k, p in enumerate('SQRP'):
        noted = p in 'SP' or cx.flag('note' + p)
        for i in range(n if p == 'P' else 1):
            # one text for each rule
            at = cat('2:0', str(i), ':', fmt(m + i + k)) if noted else '2:00'
            save = cat('0:2', str(i), ':', fmt(m + i)) if noted and \
                scope == 'complete' else '1:00'
            L.append(rule_line(p, 1970, 2050, 2 + i, '8', at, save, 'D'))
        L.append(rule_line(p, 1970, 2050, 10, '8', '2:00', '0', 'S'))
    u = cx.int('u', 2001, 2004)
    order = cx.choice('order', ['PQRS', 'SRQP', 'QSPR'])
    if scope == 'basic':
        # basic zones have whole years only
        end = [until(u + i) for i in range(3)]
    else:
        end = [until(u + i, 2, 3, cat('1:0', str(i), ':', fmt(m + i)))
               for i in range(3)]
    L += zone_lines('Z/B', [
        ('%d:%02d:%02d' % (i + 1, i, i + 1), p, 'A%s') + (
            (end[i],) if i < 3 else ()) for i, p in enumerate(order)])
    L += zone_lines('Z/A', [('1:00', 'P', 'A%s', until(2002)),
                            ('1:00', 'Q', 'B%s', until(2003)),
                            ('1:00', 'P', 'C%s')])
    res = go(cx, L, ['Z/A', 'Z/B'], lang, scope, 2000, 2008)
    if db.generated(res):
        z = find(res.json['merged_notable_zones'], 'Z/B')
        for x in z or ():
            cx.cover('many-policies', isdict(x) and len(x) == 4)
        w = find(res.json['notable_policies'], 'P')
        cx.cover('many-notes', w is not None and len(w) > 4)


def jobs(tier):
    full = tier == 'thorough'
    out = []
    for scope in ('basic', 'extended', 'complete'):
        for lang in LANGS:
            for n in (2, 3):
                if not full and n == 3 and lang in ('arduino', 'c') and \
                        scope != 'extended':
                    continue
                out.append(Job('eras%d-%s-%s' % (n, scope, lang), eras,
                               lang=lang, scope=scope, n=n, budget=400))
            for strict in (False, True):
                out.append(Job('zone-%s-%s-%s' % (
                    scope, lang, 'strict' if strict else 'lax'), zone_notes,
                    lang=lang, scope=scope, strict=strict))
            out.append(Job('many-%s-%s' % (scope, lang), many,
                           lang=lang, scope=scope))
            out.append(Job('letters-%s-%s' % (scope, lang), letters,
                           lang=lang, scope=scope))
    return out
