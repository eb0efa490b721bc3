"""C14: zone ids are stable, unique and order the registries."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File, Bad, Ref, num as value

BOUNDS = ('names of up to 24 characters, up to ten symbolic '
          '(letters, digits, _ + - /); up to 3 zones and 2 links with up to '
          'two symbolic characters per name, in the C++ and C outputs; pairs '
          'of zone and link names with 2..3 symbolic characters for '
          'collisions; up to four names of 1..10 characters whose ids have '
          'different numbers of digits; ten names with '
          'ids on both sides of 2**31; one-character neighbourhoods of names that hash to 0')
OUTSIDE = ('non-ASCII names; more than five symbolic names; collisions of '
           'names that differ in more than three characters')
COVERS = ['id', 'collision-abort', 'distinct', 'zero-abort', 'zero-ok',
          'registry', 'order-differs', 'link-in-registry', 'high-bit',
          'digits-differ', 'both-halves']
ALPHA = '+-/_'


def name_char(cx, n, extra=True):
    c = cx.int(n, 43, 122)
    if extra:
        cx.assume(Or(between(c, 48, 57), between(c, 65, 90),
                     between(c, 97, 122), c == 43, c == 45, c == 95))
    else:
        cx.assume(Or(between(c, 48, 57), between(c, 65, 90),
                     between(c, 97, 122)))
    return c


def text_of(cs):
    return cat(*[c if isinstance(c, str) else
                 chr(c) if isinstance(c, int) else SymStr.char(c)
                 for c in cs])


def djb2(s):
    """The documented 32-bit hash."""
    h = 5381
    for c in (s if isinstance(s, list) else codes(s)):
        h = (33 * h + (ord(c) if isinstance(c, str) else c)) % 2**32
    return h


def long_name(cx, n, k):
    """The id of one name of n characters, k of them symbolic."""
    cs = list('Z/') + list('abcdefghijklmnopqrstuvwxyz'[:n - 2 - k])
    cs += [name_char(cx, 'n%d' % i, k <= 3) for i in range(k)]
    s = text_of(cs)
    res = run_main(cx, zone_lines(s, [('0', '-', 'X')])
                   + [link_line(s, 'L/x')], default_opts('complete'))
    want = djb2(cs)
    if not db.generated(res):
        # only an id of zero, or one equal to that of the link, may abort
        cx.check(Or(want == 0, want == djb2('L/x')),
                 'a name with a usable id is refused')
        return
    ids = res.json['zone_ids']
    cx.check(len(ids) == 1, 'number of zone ids')
    cx.check(ids[s] == want, 'zone id is the djb2 hash')
    cx.check(want != 0, 'zero id is accepted')
    cx.check(res.json['link_ids']['L/x'] == djb2('L/x'), 'link id')
    cx.cover('id')
    cx.cover('high-bit', want >= 2**31)


def long_link(cx, n, k):
    cs = list('L/') + list('abcdefghijklmnopqrstuvwxyz'[:n - 2 - k])
    cs += [name_char(cx, 'n%d' % i, k <= 3) for i in range(k)]
    s = text_of(cs)
    res = run_main(cx, zone_lines('Z/x', [('0', '-', 'X')])
                   + [link_line('Z/x', s)], default_opts('complete'))
    want = djb2(cs)
    if not db.generated(res):
        cx.check(Or(want == 0, want == djb2('Z/x')),
                 'a name with a usable id is refused')
        return
    cx.check(len(res.json['link_ids']) == 1, 'number of link ids')
    cx.check(res.json['link_ids'][s] == want, 'link id is the djb2 hash')
    cx.check(res.json['zone_ids']['Z/x'] == djb2('Z/x'), 'zone id')


def direct(cx, n):
    """hash_name() itself, any printable characters."""
    T = env.module(cx, 'transformer.transformer')
    f = getattr(T, 'hash_name', None)
    if f is None:
        raise Inconclusive('hash_name() is gone')
    cs = [cx.int('n%d' % i, 1, 127)
          for i in range(n)]
    cx.check(f(text_of(cs)) == djb2(cs), 'hash of a name')
    cx.cover('id')


def collide(cx, kind, k, pre, mid=''):
    """Two names that differ in k characters."""
    a = [name_char(cx, 'a%d' % i, False) for i in range(k)]
    b = [name_char(cx, 'b%d' % i, False) for i in range(k)]
    # the first and last differing characters are next to each other
    cx.assume(Not(And(*[x == y for x, y in zip(a, b)])))
    A = text_of(list(pre) + a + list(mid))
    B = text_of(list(pre) + b + list(mid))
    lines = zone_lines(A, [('0', '-', 'X')])
    if kind == 'zz':
        lines += zone_lines(B, [('1:00', '-', 'Y')])
    elif kind == 'zl':
        lines += [link_line(A, B)]
    else:
        lines = zone_lines('Z/Q', [('0', '-', 'X')]) + [
            link_line('Z/Q', A), link_line('Z/Q', B)]
        cx.assume(And(A != 'Z/Q', B != 'Z/Q'))
    res = run_main(cx, lines, default_opts('complete', languages='python'))
    x = djb2(list(pre) + a + list(mid))
    y = djb2(list(pre) + b + list(mid))
    others = [djb2('Z/Q')] if kind == 'll' else []
    clash = Or(x == y, *[Or(x == o, y == o) for o in others])
    if db.generated(res):
        cx.check(Not(clash), 'two names with the same id are accepted')
        ids = list(res.json['zone_ids'].values()) + list(
            res.json['link_ids'].values())
        cx.check(len(ids) == 2 + len(others), 'number of ids')
        cx.cover('distinct')
    else:
        cx.check(Or(clash, x == 0, y == 0), 'distinct ids are refused')
        cx.check(res.json is None and not res.files,
                 'output in spite of a collision')
        cx.cover('collision-abort', clash)


ZERO = ['Z/aotjkAWa', 'Z/avhzsUIH']


def zero(cx, kind, i, at):
    """A character of a name whose hash is zero becomes symbolic."""
    cs = list(ZERO[i])
    cs[at] = name_char(cx, 'c', False)
    s = text_of(cs)
    lines = zone_lines(s if kind == 'z' else 'Z/Q', [('0', '-', 'X')])
    if kind == 'l':
        lines += [link_line('Z/Q', s)]
    res = run_main(cx, lines, default_opts('complete'))
    h = djb2(cs)
    if db.generated(res):
        cx.check(h != 0, 'zero id is accepted')
        cx.cover('zero-ok')
    else:
        cx.check(h == 0, 'a name with a usable id is refused')
        cx.cover('zero-abort')


def sym(s):
    return s.replace('/', '_')


def registry(cx, lang, scope, nz, nl, k):
    """Records, headers and registries of symbolic names."""
    zn, ln, zi = [], [], {}
    names, ids = [], []
    for i in range(nz):
        cs = list('Z/') + [name_char(cx, 'z%d%d' % (i, j), False)
                           for j in range(k)] + ['abcd'[i]]
        zn.append(text_of(cs))
        ids.append(djb2(cs))
    for i in range(nl):
        cs = list('LM'[i] + '/') + [name_char(cx, 'l%d%d' % (i, j), False)
                                    for j in range(k)] + ['a']
        ln.append(text_of(cs))
        ids.append(djb2(cs))
    names = zn + ln
    lines = []
    for i, z in enumerate(zn):
        lines += zone_lines(z, [('%d:00' % i, '-', 'X')])
    for i, l in enumerate(ln):
        lines += [link_line(zn[i % nz], l)]
    res = run_main(cx, lines, default_opts(
        scope, languages=lang, actions='json,zonedb',
        skip_bufestimator=False))
    if not db.generated(res):
        # ids cannot collide unless they are equal
        cx.check(Or(*[Or(x == 0, *[x == y for y in ids[:n]])
                      for n, x in enumerate(ids)]), 'generation fails')
        return
    try:
        check(cx, res, lang, zn, ln, ids)
    except Bad as e:
        cx.fail('generated source: %s' % e)


SHORT = ['?', 'A?', 'Bc?', 'Defg/hijk?', '?b', 'Fg/hi?', '?/k', 'Lm?']


def short(cx, lang, scope, nz, picks):
    """Names of different lengths: ids of different numbers of digits."""
    ns, ids = [], []
    for i, k in enumerate(picks):
        cs = [c if c != '?' else name_char(cx, 's%d' % i, False)
              for c in SHORT[k]]
        ns.append(text_of(cs))
        ids.append(djb2(cs))
    zn, ln = ns[:nz], ns[nz:]
    lines = []
    for i, z in enumerate(zn):
        lines += zone_lines(z, [('%d:00' % i, '-', 'X')])
    for i, l in enumerate(ln):
        lines += [link_line(zn[i % nz], l)]
    res = run_main(cx, lines, default_opts(
        scope, languages=lang, actions='json,zonedb',
        skip_bufestimator=False))
    if not db.generated(res):
        # or two names with the same symbol, e.g. equal ones
        cx.check(Or(*[Or(x == 0, *[x == y for y in ids[:n]])
                      for n, x in enumerate(ids)]), 'generation fails')
        return
    try:
        check(cx, res, lang, zn, ln, ids)
    except Bad as e:
        cx.fail('generated source: %s' % e)
    d = [ids[a] // 16**7 == 0 for a in range(len(ids))]
    cx.cover('digits-differ', And(Or(*d), Not(And(*d))))


# names whose ids lie in all parts of the range of 32 bits
FAR = ['E/bar', 'Q/foo_x', 'Xa/one', 'Asia/Ba', 'Zulu/t', 'Cd/efgh', 'Oo/p',
       'Pacific/Nau', 'Etc/Gm', 'Wx/yzzz']


def far(cx, lang, scope, nz):
    """Zones and links with ids on both sides of 2**31."""
    ns = [cat(n, name_char(cx, 's%d' % i, False)) if i % 4 == 1 else n
          for i, n in enumerate(FAR)]
    ids = [djb2(codes(n)) for n in ns]
    zn, ln = ns[:nz], ns[nz:]
    lines = []
    for i, z in enumerate(zn):
        lines += zone_lines(z, [('%d:00' % i, '-', 'X')])
    for i, l in enumerate(ln):
        lines += [link_line(zn[i % nz], l)]
    res = run_main(cx, lines, default_opts(
        scope, languages=lang, actions='json,zonedb',
        skip_bufestimator=False))
    if not db.generated(res):
        cx.check(Or(*[Or(x == 0, *[x == y for y in ids[:n]])
                      for n, x in enumerate(ids)]), 'generation fails')
        return
    try:
        check(cx, res, lang, zn, ln, ids)
    except Bad as e:
        cx.fail('generated source: %s' % e)
    hi = [i >= 2**31 for i in ids]
    cx.cover('both-halves', And(Or(*hi), Not(And(*hi))))


def check(cx, res, lang, zn, ln, ids):
    names = zn + ln
    J = res.json
    ext = 'cpp' if lang == 'arduino' else 'c'
    pre = 'k' if lang == 'arduino' else 'kzonedb'
    I = File(res.files['zone_infos.' + ext], ext)
    H = File(res.files['zone_infos.h'], ext)
    R = File(res.files['zone_registry.' + ext], ext)
    for i, n in enumerate(names):
        m = J['zone_ids' if i < len(zn) else 'link_ids']
        cx.check(m[n] == ids[i], 'id in the database')
        rec = I.find(cat(pre, 'Zone', sym(n)))
        cx.check(value(rec[1]) == ids[i], 'id in the record')
        cx.check(value(H.find(cat(pre, 'ZoneId', sym(n)))) == ids[i],
                 'id in the header')
    one_registry(cx, R, pre + 'ZoneRegistry', pre, zn, ids)
    one_registry(cx, R, pre + 'ZoneAndLinkRegistry', pre, names, ids)
    cx.cover('registry')
    cx.cover('link-in-registry', bool(ln))
    if len(zn) > 1:
        cx.cover('order-differs', ids[0] > ids[1])
    RH = File(res.files['zone_registry.h'], ext)
    for nm, cnt in (('ZoneRegistry', len(zn)),
                    ('ZoneAndLinkRegistry', len(names))):
        n = RH.find(pre + nm + 'Size')
        cx.check(value(n) == cnt, 'registry size in the header')


def one_registry(cx, R, name, pre, names, ids):
    g = R.get(name)
    cx.check(len(g) == len(names), name + ' size')
    size = R.sizes.get(name)
    if size is not None:
        cx.check(value(size) == len(names), name + ' declared size')
    ref = []
    for v in g.items:
        if not isinstance(v, Ref):
            raise Bad('registry entry %r' % (v,))
        ref.append(v.name)
    syms = [cat(pre, 'Zone', sym(n)) for n in names]
    for s in syms:
        cx.check(Or(*[r == s for r in ref]), name + ' lacks an entry')

    def rank(r):
        x = -1
        for s, i in zip(syms, ids):
            x = If(r == s, i, x)
        return x
    rs = [rank(r) for r in ref]
    for a, b in zip(rs, rs[1:]):
        cx.check(And(a < b, a >= 0), name + ' is not in increasing order')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n, k in [(3, 1), (5, 3), (12, 8), (24, 10)] + (
            [] if q else [(30, 12), (40, 14), (24, 22)]):
        out.append(Job('name-%d-%d' % (n, k), long_name, n=n, k=k))
        out.append(Job('link-%d-%d' % (n, k), long_link, n=n, k=k))
    for n in (1, 2, 7, 15, 30) if q else range(1, 61):
        out.append(Job('hash-%d' % n, direct, n=n))
    for kind in ('zz', 'zl', 'll'):
        for k, pre, mid in [(2, 'Z/', ''), (2, 'Z/abc', 'd')] + (
                [] if q else [(3, 'Z/', ''), (2, 'A/b', 'cdefghijk')]):
            out.append(Job('collide-%s-%d-%s%s' % (kind, k, pre, mid),
                           collide, kind=kind, k=k, pre=pre, mid=mid))
    for kind in 'zl':
        for i in range(2):
            for at in ((9, 4) if q else (9, 8, 7, 6, 5, 4, 3, 2)):
                out.append(Job('zero-%s-%d-%d' % (kind, i, at), zero,
                               kind=kind, i=i, at=at))
    for lang in ('arduino', 'c'):
        for scope, nz, nl, k in [('complete', 1, 1, 2), ('extended', 2, 0, 1),
                                 ('basic', 2, 1, 1)] + (
                [('complete', 1, 2, 1)] if q else
                [('complete', 2, 2, 1), ('extended', 3, 1, 1),
                 ('complete', 2, 1, 2)]):
            out.append(Job('registry-%s-%s-%d-%d-%d' % (
                lang, scope, nz, nl, k), registry, lang=lang, scope=scope,
                nz=nz, nl=nl, k=k))
        for scope, nz in (('extended', 5), ('complete', 8), ('basic', 10)) \
                if q else [(s, n) for s in ('basic', 'extended', 'complete')
                           for n in (2, 5, 8, 10)]:
            out.append(Job('far-%s-%s-%d' % (lang, scope, nz), far, lang=lang,
                           scope=scope, nz=nz))
        for scope, nz, picks in [('complete', 2, (3, 1)),
                                 ('extended', 1, (5, 0, 2)),
                                 ('basic', 2, (6, 4, 3))] + (
                [] if q else [('complete', 3, (0, 3, 7)),
                              ('extended', 2, (1, 5, 6, 2)),
                              ('complete', 1, (3, 5, 4))]):
            out.append(Job('short-%s-%s-%d-%s' % (
                lang, scope, nz, ''.join(map(str, picks))), short, lang=lang,
                scope=scope, nz=nz, picks=picks))
    return out


from pysym.strings import SymStr  # noqa: E402
