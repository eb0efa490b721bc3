"""C15: generated symbols are valid and never clash."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File, Bad, Ref, Group, Str

BOUNDS = ('two zone, link or policy names of equal length with 1..2 symbolic '
          'characters each, at the start, in the middle or at the end '
          '(letters, digits and $%+-./@^_`~), or of different length around '
          'the replacement text of "+"; all four languages')
OUTSIDE = ('non-ASCII names; names with quotes, backslashes, brackets, commas '
           'or other C punctuation; names such as "EraX" or "Context", whose '
           'symbol coincides with one of another kind')
COVERS = ['zz-ok', 'zz-abort', 'zl-ok', 'zl-abort', 'll-ok', 'll-abort',
          'pp-ok', 'pp-abort', 'plus-minus', 'special', 'unused-policy']
OK = '$%+-./@^_`~'
LANGS = ['python', 'arduino', 'c', 'go']
EXT = {'python': 'py', 'arduino': 'cpp', 'c': 'c', 'go': 'go'}


def char(cx, n):
    c = cx.int(n, 36, 126)
    cx.assume(Or(alnum(c), *[c == ord(x) for x in OK]))
    return c


def alnum(c):
    return Or(between(c, 48, 57), between(c, 65, 90), between(c, 97, 122))


def text_of(cs):
    return cat(*[c if isinstance(c, str) else chr(c) if isinstance(c, int)
                 else SymStr.char(c) for c in cs])


def identifier(s):
    cs = codes(s)
    return And(len(cs) > 0, *[Or(alnum(c), c == 95) for c in cs],
               Not(between(cs[0], 48, 57)))


def words(v):
    """Symbols referred to by a value."""
    if isinstance(v, Ref):
        return [v.name]
    if isinstance(v, Group):
        return [w for x in v.items for w in words(x)]
    if isinstance(v, (str, SymStr)):
        return [v]
    return []


def is_ref(w, pres):
    t = w if isinstance(w, str) else w.segs[0] if isinstance(
        w.segs[0], str) else ''
    return any(t.startswith(p) for p in pres)


PRES = {'python': ('ZONE_',), 'arduino': ('kZone', 'kLetter', 'kFragment'),
        'c': ('kAtc', 'kzonedb'), 'go': ()}


def check_symbols(cx, res, lang):
    e = EXT[lang]
    files = {n: File(t, e) for n, t in res.files.items()
             if n.endswith('.' + e) or n.endswith('.h')}
    decl = {}
    for n, f in files.items():
        decl[n] = [x for x, _ in f.pairs + f.def_pairs]
        new = [x for x in decl[n]]
        for x in new:
            if not isinstance(x, str):
                cx.check(identifier(x), 'symbol with other characters in '
                         + n)
            elif not (x.isidentifier() and x.isascii()):
                cx.fail('symbol %s in %s' % (x, n))
        for i, x in enumerate(new):
            for y in new[:i]:
                if isinstance(x, str) and isinstance(y, str):
                    if x == y:
                        cx.fail('%s is declared twice in %s' % (x, n))
                else:
                    cx.check(Not(eq(x, y)), 'two declarations of a symbol '
                             'in ' + n)
    every = [x for n in decl for x in decl[n]]
    for n, f in files.items():
        for _, v in f.pairs + f.def_pairs:
            for w in words(v):
                if is_ref(w, PRES[lang]):
                    cx.check(Or(*[eq(w, x) for x in every]),
                             'undeclared symbol is used in ' + n)
        for x, _ in f.externs:
            cx.check(Or(*[eq(x, y) for y in every]),
                     'undeclared symbol in ' + n)
    return every


def two(cx, lang, kind, k, pre, post, scope='complete'):
    a = [char(cx, 'a%d' % i) for i in range(k)]
    b = [char(cx, 'b%d' % i) for i in range(k)]
    if kind == 'pp':
        cx.assume(And(a[0] != 45 if not pre else True,
                      b[0] != 45 if not pre else True))
        if not pre:
            cx.assume(And(*[Not(between(x, 48, 57)) for x in (a[0], b[0])]))
    cx.assume(Not(And(*[x == y for x, y in zip(a, b)])))
    A = text_of(list(pre) + a + list(post))
    B = text_of(list(pre) + b + list(post))
    Z = zone_lines(A if kind[0] == 'z' else 'Q/q', [('0', '-', 'X')])
    if kind == 'zz':
        L = Z + zone_lines(B, [('1:00', '-', 'Y')])
    elif kind == 'zl':
        L = Z + [link_line(A, B)]
    elif kind == 'll':
        L = Z + [link_line('Q/q', A), link_line('Q/q', B)]
    else:
        L = policies(A, B, True)
    res = go(cx, lang, L, scope)
    same = And(*[Or(x == y, And(Not(alnum(x)), Not(alnum(y)), x != 43,
                                y != 43)) for x, y in zip(a, b)])
    if db.generated(res):
        cx.check(Not(same), 'two names with the same symbol are accepted')
        symbols(cx, res, lang)
        cx.cover(kind + '-ok')
        cx.cover('plus-minus', Or(*[And(x == 43, y == 45)
                                    for x, y in zip(a, b)]))
        cx.cover('special', And(*[Not(alnum(x)) for x in a + b]))
    else:
        x, y = djb2(list(pre) + a + list(post)), djb2(
            list(pre) + b + list(post))
        cx.check(Or(same, x == y) if kind != 'pp' else same,
                 'names with different symbols are refused')
        cx.check(res.json is None and not res.files,
                 'output in spite of clashing symbols')
        cx.cover(kind + '-abort', same)


def djb2(s):
    h = 5381
    for c in s:
        h = (33 * h + (ord(c) if isinstance(c, str) else c)) % 2**32
    return h


def policies(A, B, use_b):
    out = []
    for p, s in ((A, '1:00'), (B, '0:30')):
        out += [rule_line(p, 1990, 2040, 3, '8', '2:00', s, 'D'),
                rule_line(p, 1990, 2040, 10, '8', '2:00', '0', 'S')]
    out += zone_lines('Z/A', [('1:00', A, 'X%sT')])
    if use_b:
        out += zone_lines('Z/B', [('1:00', B, 'Y%sT')])
    return out


def go(cx, lang, L, scope):
    return run_main(cx, L, default_opts(
        scope, languages=lang, actions='json,zonedb', nostrict=True,
        skip_bufestimator=lang in ('python', 'go'), start_year=2000,
        until_year=2030))


def symbols(cx, res, lang):
    try:
        check_symbols(cx, res, lang)
    except Bad as e:
        cx.fail('generated source: %s' % e)


def plus(cx, lang, kind, mode):
    """Names around the replacement of '+'."""
    c = char(cx, 'c')
    A = cat('Z/A+', text_of([c]))
    B = cat('Z/A_PLUS_', text_of([c])) if mode == 0 else cat(
        'Z/A', text_of([c]), 'PLUS_', 'B') if mode == 1 else cat(
        'Z/A_PLU', text_of([c]), '_B')
    if mode:
        A = 'Z/A+B'
    if kind == 'pp':
        A, B = A[2:], B[2:]
        L = policies(A, B, True)
    elif kind == 'zl':
        L = zone_lines(A, [('0', '-', 'X')]) + [link_line(A, B)]
    else:
        L = zone_lines(A, [('0', '-', 'X')]) + zone_lines(
            B, [('1:00', '-', 'X')])
    res = go(cx, lang, L, 'complete')
    if db.generated(res):
        symbols(cx, res, lang)


def unused(cx, lang):
    """A policy that is not generated never clashes."""
    c = char(cx, 'c')
    d = char(cx, 'd')
    cx.assume(c != d)
    A, B = cat('P', text_of([c])), cat('P', text_of([d]))
    res = go(cx, lang, policies(A, B, False), 'complete')
    if not db.generated(res):
        cx.fail('an unused policy aborts the generation')
        return
    symbols(cx, res, lang)
    cx.cover('unused-policy')


def one(cx, lang, kind, k):
    """Every character of one name."""
    a = [char(cx, 'a%d' % i) for i in range(k)]
    if kind == 'p':
        cx.assume(a[0] != 45)
        A = text_of(a + ['P'])
        L = policies(A, 'Unused', False)
    elif kind == 'z':
        L = zone_lines(text_of(a), [('0', '-', 'X')])
    else:
        L = zone_lines('Q/q', [('0', '-', 'X')]) + [
            link_line('Q/q', text_of(a))]
    res = go(cx, lang, L, 'extended' if k == 1 else 'basic')
    if not db.generated(res):
        cx.fail('a valid name is refused')
        return
    symbols(cx, res, lang)


def jobs(tier):
    q = tier == 'quick'
    out = []
    for lang in LANGS:
        for kind in ('zz', 'zl', 'll', 'pp'):
            for k, pre, post in [(1, 'Z/A', 'B'), (1, 'P' if kind == 'pp'
                                                   else 'Z', '')] + (
                    [] if q else [(2, 'Z/A', ''), (2, 'Z', 'q')]):
                out.append(Job('two-%s-%s-%d-%s-%s' % (
                    lang, kind, k, pre, post), two, lang=lang, kind=kind,
                    k=k, pre=pre, post=post))
        for kind in ('zz', 'zl', 'pp'):
            for mode in range(3):
                out.append(Job('plus-%s-%s-%d' % (lang, kind, mode), plus,
                               lang=lang, kind=kind, mode=mode))
        for kind in ('zz', 'zl', 'll', 'pp'):
            out.append(Job('first-%s-%s' % (lang, kind), two, lang=lang,
                           kind=kind, k=1, pre='', post='olicy'))
        out.append(Job('unused-' + lang, unused, lang=lang))
        for kind in 'zlp':
            for k in ((1, 2) if q else (1, 2, 3)):
                out.append(Job('one-%s-%s-%d' % (lang, kind, k), one,
                               lang=lang, kind=kind, k=k))
    if q:
        out.append(Job('two-python-zz-2', two, lang='python', kind='zz', k=2,
                       pre='Z/A', post=''))
        out.append(Job('two-go-pp-2', two, lang='go', kind='pp', k=2,
                       pre='P', post='', scope='extended'))
    return out


from pysym.strings import SymStr  # noqa: E402
