"""C13: scope presets and year limits are applied as documented."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File, Bad, num as value

BOUNDS = ('every start year 1..9999 per scope; every subset of the '
          'granularity options, with values 1..3600 reported and 13 values '
          'applied to symbolic AT, UNTIL, STDOFF, SAVE and fixed RULES; '
          'action and language lists of up to three entries with up to four '
          'symbolic characters')
OUTSIDE = 'other option values'
COVERS = ['low-abort', 'low-ok', 'high-ok', 'preset', 'override', 'tiny',
          'full', 'reported', 'refused', 'accepted', 'files',
          'one-option', 'bad-scope']
PRESET = {'basic': (60, 60, 900), 'extended': (60, 60, 900),
          'complete': (1, 1, 60)}
NAMES = ['until_at_granularity', 'offset_granularity', 'delta_granularity']
MIN_START = {'basic': 1980, 'extended': 1974, 'complete': None}


def sources(at='2:00', save='1:00', off='1:00', untl='2:00', rul='0:30',
            basic=False):
    """A database exercising every granularity."""
    out = [rule_line('P', 1980, 2040, 3, '8', at, save, 'D'),
           rule_line('P', 1980, 2040, 10, '8', '2:00', '0', 'S')]
    if basic:
        return out + zone_lines('Z/A', [(off, 'P', 'F%sT')])
    return out + zone_lines('Z/A', [(off, '-', 'X', until(1999, 3, 4, untl)),
                                    ('1:00', rul, 'Y', until(2001)),
                                    ('2:00', 'P', 'F%sT')])


def start(cx, scope):
    s = cx.int('start', 1, 9999)
    # the until year and base year stay representable
    base = s + 40
    res = run_main(cx, sources(basic=scope == 'basic'),
                   default_opts(scope, s, s + 30, tiny_base_year=base,
                                actions='json,zonedb,zonelist'))
    lim = MIN_START[scope]
    if db.generated(res):
        cx.check(lim is None or s >= lim, 'start year too early for the '
                 'scope is accepted')
        cx.check(res.json['start_year'] == s, 'reported start year')
        cx.cover('low-ok', s == (lim or 1))
        cx.cover('high-ok', s > 2100)
    elif lim is not None:
        below = s < lim
        cx.check(below, 'a start year the scope allows is refused')
        cx.check(not res.files and res.json is None,
                 'files are written although the start year is refused')
        cx.cover('low-abort', s == lim - 1)
    else:
        cx.fail('start year refused in complete scope')


def grans(cx, scope, which, g):
    """Applies granularities to symbolic values."""
    opts = {}
    pre = list(PRESET[scope])
    if which == 'all':
        opts['granularity'] = g
        pre = [g, g, g]
    else:
        for i in which:
            opts[NAMES[i]] = g
            pre[i] = g

    def t(n, hi):
        h = cx.int(n + 'h', 0, hi)
        m = cx.int(n + 'm', 0, 59)
        s = cx.int(n + 's', 0, 59)
        return hms(False, h, m, s), h * 3600 + m * 60 + s
    what = cx.choice('what', ['at', 'off'] if scope == 'basic' else
                     ['at', 'save', 'off', 'untl', 'rul'])
    x, v = t('x', 2 if what in ('save', 'rul') else 24)
    if what == 'rul':
        cx.assume(v > 0)
    kw = {what: x}
    res = run_main(cx, sources(basic=scope == 'basic', **kw), default_opts(
        scope, 2000, 2030, nostrict=True, **opts))
    if not db.generated(res):
        if scope == 'basic' or what in ('at', 'off', 'untl'):
            raise Inconclusive('not generated: %r' % (res.exc,))
        return
    J = res.json
    for n, p in zip(NAMES, pre):
        cx.check(J[n] == p, 'reported ' + n)
    z = db.eras(res, 'Z/A')
    if z is None:
        return
    gu, go, gd = pre
    if what == 'off':
        cx.check(z[0]['offset_seconds_truncated'] == trunc0(v, go),
                 'STDOFF granularity')
    elif what == 'untl':
        cx.check(z[0]['until_seconds_truncated'] == trunc0(v, gu),
                 'UNTIL granularity')
    elif what == 'rul':
        cx.check(z[1]['era_delta_seconds_truncated'] == trunc0(v, gd),
                 'RULES granularity')
    else:
        rs = db.with_letter(db.rules(res, 'P') or [], 'D')
        for r in rs:
            if what == 'at':
                cx.check(r['at_seconds_truncated'] == trunc0(v, gu),
                         'AT granularity')
            else:
                cx.check(r['delta_seconds_truncated'] == trunc0(v, gd),
                         'SAVE granularity')
    cx.cover('preset', which == ())
    cx.cover('override', which == 'all' or len(which) == 3)
    cx.cover('one-option', which != 'all' and len(which) == 1)


def reported(cx, scope, which, every=False):
    """Options are passed on for every value."""
    pre = list(PRESET[scope])
    opts = {}
    for i in which:
        g = cx.int(NAMES[i], 1, 3600)
        opts[NAMES[i]] = g
        pre[i] = g
    if every:
        g = opts['granularity'] = cx.int('granularity', 1, 3600)
        pre = [g, g, g]
    lines = zone_lines('Z/A', [('0', '-', 'X')])
    res = run_main(cx, lines, default_opts(scope, 2000, 2030, nostrict=True,
                                           **opts))
    if not db.generated(res):
        raise Inconclusive('not generated: %r' % (res.exc,))
    for n, p in zip(NAMES, pre):
        cx.check(res.json[n] == p, 'reported ' + n)
    cx.cover('reported')


def years(cx, scope, lang):
    """8-bit or full years in the sources."""
    f = cx.int('f', 1981, 2020)
    u = cx.int('u', 2001, 2029)
    lines = [rule_line('P', f, 2040, 3, '8', '2:00', '1:00', 'D'),
             rule_line('P', 1980, 2040, 10, '8', '2:00', '0', 'S')]
    lines += zone_lines('Z/A', [('1:00', 'P', 'X%s', until(u)),
                                ('2:00', 'P', 'F%sT')])
    base = cx.int('base', 2000, 2090)
    res = run_main(cx, lines, default_opts(
        scope, 2000, 2030, languages=lang, actions='json,zonedb',
        skip_bufestimator=False, tiny_base_year=base))
    if not db.generated(res):
        raise Inconclusive('not generated: %r' % (res.exc,))
    ext = 'cpp' if lang == 'arduino' else 'c'
    try:
        P = File(res.files['zone_policies.' + ext], ext)
        I = File(res.files['zone_infos.' + ext], ext)
        rows = [v for n, v in P.values.items()
                if 'ZoneRules' in n and len(v) == 3]
        eras = [v for n, v in I.values.items()
                if 'ZoneEra' in n and len(v) == 2]
        ok = len(rows) == 1 and len(eras) == 1
        cx.check(ok, 'rule and era tables')
        if not ok:
            return
        tiny = scope != 'complete'
        r = [x for x in rows[0].items if value(x[2]) == 3][0]
        e = eras[0][0]
        ui = value(e[4 if tiny else 6]) if False else None
        cx.check(value(r[0]) == (f - base if tiny else f),
                 'FROM year in the source')
        cx.check(value(r[1]) == (2040 - base if tiny else 2040),
                 'TO year in the source')
        col = until_col(e, lang, scope)
        cx.check(value(col) == (u - base if tiny else u),
                 'UNTIL year in the source')
        cx.cover('tiny' if tiny else 'full')
    except Bad as x:
        cx.fail('generated source: %s' % x)


def until_col(e, lang, scope):
    # policy, format, offset code, [offset remainder], delta, until year
    return e[5] if scope == 'complete' else e[4]


PYF = ['zone_infos.py', 'zone_policies.py', 'zone_registry.py']
GOF = ['reader_test.go', 'zone_infos.go', 'zone_infos_test.go',
       'zone_policies.go', 'zone_policies_test.go', 'zone_registry.go',
       'zone_registry_test.go']


def cc(ext):
    return ['zone_infos.' + ext, 'zone_infos.h', 'zone_policies.' + ext,
            'zone_policies.h', 'zone_registry.' + ext, 'zone_registry.h']


LANGF = {'python': PYF, 'arduino': cc('cpp'), 'c': cc('c'), 'go': GOF}


def wanted(actions, langs):
    out = set()
    if 'zonedb' in actions:
        for l in langs:
            out |= set(LANGF[l])
    if 'zonelist' in actions:
        out.add('zones.txt')
    return out


def files(cx, opt):
    """Combinations of valid actions and languages."""
    A = ['json', 'zonedb', 'zonelist']
    L = ['arduino', 'c', 'python', 'go']
    n = 3 if opt == 'a' else 2
    acts = [cx.choice('a%d' % i, A) for i in range(2 if opt == 'a' else 1)]
    if opt == 'l':
        acts.append('json')
    langs = [cx.choice('l%d' % i, L) for i in range(1 if opt == 'a' else 2)]
    res = run_main(cx, sources(), default_opts(
        'complete', 2000, 2030, actions=','.join(acts),
        languages=','.join(langs), skip_bufestimator=False))
    if res.exc is not None:
        raise Inconclusive('not generated: %r' % (res.exc,))
    cx.check((res.json is not None) == ('json' in acts), 'JSON file')
    cx.check(set(res.files) == wanted(acts, langs), 'set of files')
    cx.cover('files')


def tokens(cx, opt, shape):
    """Symbolic text in --actions or --languages."""
    valid = ['json', 'zonedb', 'zonelist'] if opt == 'actions' else [
        'arduino', 'c', 'python', 'go']
    text = cat(*[cx.char('c%d' % i, 97, 122) if ch == '?' else
                 cx.char('d%d' % i, 44, 45) if ch == '!' else
                 cx.char('u%d' % i, 65, 122) if ch == '*' else
                 ch for i, ch in enumerate(shape)])
    kw = {opt: text}
    if opt == 'languages':
        kw['actions'] = 'json'
    res = run_main(cx, sources(), default_opts('complete', 2000, 2030,
                                               skip_bufestimator=False, **kw))
    # the comma separated entries
    ents, cur = [], ''
    for ch in text:
        if same(ch, ','):
            ents.append(cur)
            cur = ''
        else:
            cur = cat(cur, ch)
    ents.append(cur)
    ok = And(*[Or(*[e == v for v in valid]) for e in ents])
    if res.exc is None:
        cx.check(ok, 'an unknown entry of --%s is accepted' % opt)
        cx.cover('accepted')
    else:
        cx.check(Not(ok), 'a valid --%s is refused' % opt)
        cx.check(not res.files and res.json is None,
                 'files are written although --%s is refused' % opt)
        cx.cover('refused')


def same(a, b):
    r = a == b
    return r if isinstance(r, bool) else bool(r)


def scopes(cx, n):
    s = cat('complet', cx.char('c', 97, 122)) if n == 0 else cat(
        'b', cx.text('b', 2, 97, 122), 'ic') if n == 1 else cat(
        cx.char('e', 65, 122), 'xtended')
    res = run_main(cx, sources(), default_opts(s, 2000, 2030, nostrict=True))
    ok = Or(*[s == v for v in PRESET])
    if res.exc is None:
        cx.check(ok, 'an unknown scope is accepted')
    else:
        cx.check(Or(Not(ok), s == 'basic'), 'a valid scope is refused')
        cx.check(not res.files and res.json is None,
                 'files are written although the scope is refused')
        cx.cover('bad-scope')


def jobs(tier):
    out = [Job('start-' + s, start, scope=s) for s in PRESET]
    subs = [(), (0,), (1,), (2,), (0, 1, 2), 'all']
    gs = [7, 900] if tier == 'quick' else [1, 2, 7, 15, 30, 60, 90, 300, 900,
                                           1800, 3600, 11, 3599]
    if tier != 'quick':
        subs += [(0, 1), (0, 2), (1, 2)]
    for s in PRESET:
        for w in subs:
            for g in gs[:1] if w == () else gs:
                out.append(Job('gran-%s-%s-%d' % (
                    s, w if w == 'all' else ''.join(map(str, w)), g), grans,
                    scope=s, which=w, g=g))
        for w in subs:
            if w != 'all':
                out.append(Job('reported-%s-%s' % (s, ''.join(map(str, w))),
                               reported, scope=s, which=w))
                out.append(Job('every-%s-%s' % (s, ''.join(map(str, w))),
                               reported, scope=s, which=w, every=True))
        for l in ('arduino', 'c'):
            out.append(Job('years-%s-%s' % (s, l), years, scope=s, lang=l))
    out += [Job('files-' + o, files, opt=o) for o in 'al']
    for o, shs in (('actions', ['jso?', '??on', 'json!zonedb', 'json,zo?elist',
                                'zone?ist!json', '', 'json,', '*son']),
                   ('languages', ['?', 'g?', 'go!c', 'py?hon,c', 'c,',
                                  '', '??', '*o', 'ardu?no!go'])):
        for i, sh in enumerate(shs):
            out.append(Job('%s-%d' % (o, i), tokens, opt=o, shape=sh))
    out += [Job('scope-%d' % i, scopes, n=i) for i in range(3)]
    return out
