"""C32: what else is generated in a run does not change an output."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.props.c27 import same, yes

BOUNDS = ('the sets of two, three and four languages against each language '
          'alone, the subsets of the actions against all of them, with and '
          'without buffer size estimation; two or three zones with symbolic '
          'rule and UNTIL years, AT, UNTIL, STDOFF, RULES and SAVE times, '
          'formats and letters (AT and UNTIL up to 25:00, STDOFF up to '
          '15:59); the three scopes, strict and lax')
OUTSIDE = ('the invocation quoted in the headers; files left behind by a '
           'failing run')
COVERS = ['python', 'arduino', 'c', 'go', 'four', 'aborted', 'actions',
          'estimator', 'json', 'rule-dropped', 'removed', 'noted', 'lax']
LANGS = ['python', 'arduino', 'c', 'go']
OWN = {'python': ['.py'], 'go': ['.go'], 'arduino': ['.cpp'], 'c': ['.c']}


def plain(text):
    """The text without the quoted invocation."""
    out, skip = [], False
    for raw in text.split('\n'):
        s = None
        for c in ('//', '#'):
            if yes(raw.startswith(c)):
                s = raw[len(c):].strip()
                break
        if s is not None and len(s) and yes(s.startswith('$ ')):
            skip = True
        elif skip and (s is None or len(s) == 0):
            skip = False
        if not skip:
            out.append(raw)
    return out


def isd(x):
    return hasattr(x, 'keys')


def extends(a, b):
    """b has everything that a has."""
    if isd(a):
        if not isd(b):
            return False
        out = []
        for k in a:
            if k not in b:
                return False
            out.append(extends(a[k], b[k]))
        return And(*out) if out else True
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return And(*[extends(x, y) for x, y in zip(a, b)]) if a else True
    return eq(a, b)


def compare(cx, alone, both, what, lang=None):
    a, b = alone.json, both.json
    if a is not None and b is not None:
        for k in a:
            if k not in b:
                cx.fail('%s: %s is missing' % (what, k))
            else:
                cx.check(extends(a[k], b[k]), '%s: %s' % (what, k))
        cx.cover('json')
    for fn in sorted(alone.files):
        if fn not in both.files:
            cx.fail('%s: %s is missing' % (what, fn))
            continue
        x, y = plain(alone.files[fn]), plain(both.files[fn])
        cx.check(eq(x, y), '%s: %s' % (what, fn))


def source(cx, what, small):
    lo, hi = (1999, 2003) if small else (1985, 2015)
    f, t, u = 1998, 2010, 2002
    at = unt = '2:00'
    std, save, rul, letter, form = '1:00', '1:00', '-', 'D', 'A%s'
    if what == 'years':
        f, t, u = cx.int('f', lo, hi), cx.int('t', lo, hi), \
            cx.int('u', lo, hi)
        cx.assume(f <= t)
    elif what == 'at':
        at = cat(fmt(cx.int('h', 0, 9)), ':', fmt(cx.int('m', 0, 59), '02'),
                 ':', fmt(cx.int('s', 0, 59), '02'),
                 cx.choice('x', ['', 'u', 's']))
    elif what == 'until':
        unt = cat(fmt(cx.int('h', 0, 9)), ':', fmt(cx.int('m', 0, 59), '02'),
                  ':', fmt(cx.int('s', 0, 59), '02'))
    elif what == 'late':
        at = cat(fmt(cx.int('h', 22, 25)), ':00',
                 cx.choice('x', ['', 'u', 's']))
        unt = cat(fmt(cx.int('uh', 22, 25)), ':00')
    elif what == 'far':
        std = cat(cx.choice('x', ['', '-']), fmt(cx.int('h', 10, 15)), ':',
                  fmt(cx.int('m', 0, 59), '02'))
    elif what == 'std':
        std = cat(cx.choice('x', ['', '-']), fmt(cx.int('h', 0, 9)), ':',
                  fmt(cx.int('m', 0, 59), '02'),
                  ':', fmt(cx.int('s', 0, 59), '02'))
    elif what == 'save':
        save = cat(cx.choice('x', ['', '-']), fmt(cx.int('h', 0, 3)), ':',
                   fmt(cx.int('m', 0, 59), '02'))
    elif what == 'rules':
        rul = cat(fmt(cx.int('h', 0, 3)), ':', fmt(cx.int('m', 0, 59), '02'))
    elif what == 'letter':
        letter = cat(cx.char('l0', 65, 90), cx.choice('l1', ['', 'T']))
        form = cat('F', cx.char('f0', 65, 90), cx.choice('f', ['%s', '/XY']))
    L = [rule_line('P', f, t, 3, '8', at, save, letter),
         rule_line('P', 1990, 2040, 10, '8', '2:00', '0', 'S')]
    first = ('1:00', rul, 'X', until(u, 3, 4, unt))
    if what in ('years', 'letter', 'save', 'at'):
        first = ('1:00', rul, 'X', until(u))
    L += zone_lines('Z/B', [first, (std, 'P', form)])
    L += zone_lines('Z/A', [('2:00', 'P', 'A%s')])
    L += zone_lines('Z/C', [('3:00', 'Q', '%z')])
    L += [rule_line('Q', 1998, 2010, 3, '8', '2:00', '1:00', 'D'),
          rule_line('Q', 1998, 2010, 10, '8', '2:07', '0', '-')]
    return L + [link_line('Z/B', 'L/A'), link_line('Z/C', 'L/B')]


def go(cx, L, langs, scope, name, strict, actions='zonedb,json,zonelist',
       est=True):
    return run_main(cx, L, default_opts(
        scope, 2000, 2002, strict=strict, nostrict=not strict,
        actions=actions, languages=','.join(langs),
        skip_bufestimator=not est), name=name)


def languages(cx, scope, what, langs, strict, full=False):
    L = source(cx, what, not full)
    both = go(cx, L, langs, scope, 'both', strict)
    # the two share the names of their headers, the later one stays
    last = {'.h': [x for x in LANGS if x in langs and
                   x in ('arduino', 'c')][-1:]}
    bad = False
    for lang in langs:
        r = go(cx, L, [lang], scope, lang, strict)
        if r.exc is not None:
            bad = True
            cx.check(both.exc is not None, lang + ' alone is refused')
            continue
        if both.exc is None:
            if last['.h'] != [lang]:
                r.files = {fn: r.files[fn] for fn in r.files
                           if not fn.endswith('.h')}
            compare(cx, r, both, lang)
            cx.cover(lang)
            facts(cx, r, strict)
    if both.exc is not None:
        cx.check(bad, 'refused together, each language alone is not')
        cx.cover('aborted')
    elif len(langs) == 4:
        cx.cover('four')


def facts(cx, r, strict):
    J = r.json
    if J is None:
        return
    cx.cover('rule-dropped', J['num_rules'] < 6)
    cx.cover('removed', len(J['removed_zones']) > 0)
    cx.cover('noted', len(J['notable_policies']) > 0)
    cx.cover('lax', not strict)


def actions(cx, scope, what, lang, full=False):
    """An action does the same when others are requested as well."""
    L = source(cx, what, not full)
    every = go(cx, L, [lang], scope, 'all', False)
    bad = False
    for a in ('zonedb', 'json', 'zonelist', 'zonelist,zonedb'):
        r = go(cx, L, [lang], scope, a, False, actions=a)
        bad = bad or r.exc is not None
        cx.check(r.exc is None or every.exc is not None,
                 'refused only without other actions')
        if r.exc is None and every.exc is None:
            compare(cx, r, every, a)
            cx.check((r.json is not None) == (a == 'json'), a + ': JSON')
            cx.check(('zones.txt' in r.files) == ('zonelist' in a),
                     a + ': zones.txt')
            cx.check(any(fn != 'zones.txt' for fn in r.files) ==
                     ('zonedb' in a), a + ': sources')
            cx.cover('actions')
    cx.check(bad or every.exc is None, 'refused only with other actions')


SKIP = ('buf_sizes', 'max_buf_size', 'estimator_min_year',
        'estimator_max_year')


def estimator(cx, scope, what, lang, full=False):
    """Only sizes depend on the estimator."""
    L = source(cx, what, not full)
    a = go(cx, L, [lang], scope, 'with', False)
    b = go(cx, L, [lang], scope, 'without', False, est=False)
    cx.check((a.exc is None) == (b.exc is None),
             'refused only with the estimator')
    if a.exc is None and b.exc is None:
        for k in b.json:
            if k not in SKIP:
                cx.check(eq(a.json[k], b.json[k]), 'estimator: ' + k)
        for fn in b.files:
            if lang == 'go':
                continue
            x, y = plain(a.files[fn]), plain(b.files[fn])
            cx.check(eq(x, y), 'estimator: ' + fn)
        cx.cover('estimator')


SETS = [['python', 'arduino', 'c', 'go'], ['arduino', 'go'], ['c', 'go'],
        ['python', 'go'], ['arduino', 'c'], ['python', 'arduino'],
        ['c', 'python']]
KINDS = ['years', 'at', 'until', 'std', 'save', 'rules', 'letter', 'late',
         'far']


def jobs(tier):
    full = tier == 'thorough'
    out = []
    n = 0
    for scope in ('basic', 'extended', 'complete'):
        for what in KINDS:
            for strict in ((True, False) if full or what not in
                           ('years', 'letter') else (False,)):
                n += 1
                sets = SETS if full else [SETS[0], SETS[1 + n % 6]]
                for langs in sets:
                    out.append(Job('lang-%s-%s-%s-%s' % (
                        scope, what, '+'.join(langs),
                        'strict' if strict else 'lax'), languages,
                        scope=scope, what=what, langs=langs, strict=strict,
                        full=full))
            for lang in (LANGS if full else [LANGS[n % 4]]):
                out.append(Job('actions-%s-%s-%s' % (scope, what, lang),
                               actions, scope=scope, what=what, lang=lang,
                               full=full))
            for lang in ('python', 'go'):
                out.append(Job('estimator-%s-%s-%s' % (scope, what, lang),
                               estimator, scope=scope, what=what, lang=lang,
                               full=full))
    return out
