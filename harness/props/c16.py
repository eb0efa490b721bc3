"""C16: compressed names expand to the original names."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File, Bad, Ref, Group, Str

BOUNDS = ('up to 6 zones and links whose first, second or both components '
          'have a symbolic letter and are equal or not, final components '
          'of 1..3 symbolic characters; 0, 29..33 fragments with one '
          'symbolic component; literals of up to 6 symbolic characters '
          '(control or printable)')
OUTSIDE = ('names with quotes or backslashes; final components longer than '
           'three symbolic characters')
COVERS = ['compressed', 'uncompressed-fragment', 'hex-follows', 'second',
          'nocompress', 'too-many', 'many-ok', 'link', 'literal',
          'adjacent-references', 'rare']
EXT = {'arduino': 'cpp', 'c': 'c'}


def name_char(cx, n):
    c = cx.int(n, 43, 122)
    cx.assume(Or(between(c, 48, 57), between(c, 65, 90), between(c, 97, 122),
                 c == 43, c == 45, c == 95))
    return SymStr.char(c) if not isinstance(c, int) else chr(c)


def alnum_char(cx, n):
    c = cx.int(n, 48, 122)
    cx.assume(Or(between(c, 48, 57), between(c, 65, 90), between(c, 97, 122)))
    return SymStr.char(c) if not isinstance(c, int) else chr(c)


# -- C string literals ---------------------------------------------------

SIMPLE = {'n': 10, 't': 9, 'r': 13, '0': 0, '"': 34, "'": 39, '\\': 92,
          'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}


def literal(v):
    """Byte values denoted by adjacent C string literals."""
    if not isinstance(v, Str):
        raise Bad('not a string literal')
    out = []
    for p in v.pieces:
        cs = codes(_norm(p))
        i = 0
        while i < len(cs):
            c = cs[i]
            if isinstance(c, int) and c == 92:
                i += 1
                if i >= len(cs) or not isinstance(cs[i], int):
                    raise Bad('escape')
                e = chr(cs[i])
                i += 1
                if e == 'x':
                    val, n = 0, 0
                    while i < len(cs):
                        h = hex_nibble(cs[i])
                        ok = h >= 0
                        if not (ok if isinstance(ok, bool) else bool(ok)):
                            break
                        val = val * 16 + h
                        i += 1
                        n += 1
                    if n == 0:
                        raise Bad('hexadecimal escape without digits')
                    big = val > 255
                    if big if isinstance(big, bool) else bool(big):
                        raise Bad('hexadecimal escape out of range')
                    out.append(val)
                elif e in '01234567':
                    val = int(e)
                    n = 1
                    while i < len(cs) and n < 3 and isinstance(
                            cs[i], int) and chr(cs[i]) in '01234567':
                        val = val * 8 + cs[i] - 48
                        i += 1
                        n += 1
                    out.append(val)
                elif e in SIMPLE:
                    out.append(SIMPLE[e])
                else:
                    raise Bad('escape \\' + e)
                continue
            out.append(c)
            i += 1
    return out


def expand(bs, frag):
    """Replaces reference bytes; frag: index -> character codes."""
    out = []
    for b in bs:
        if isinstance(b, int) and b < 32:
            if b not in frag:
                raise Bad('reference to fragment %d' % b)
            out += frag[b]
        else:
            out.append(b)
    return out


def same_codes(a, b):
    return len(a) == len(b) and And(*[x == y for x, y in zip(a, b)])


def check(cx, res, lang, names, compress=True):
    try:
        _check(cx, res, lang, names, compress)
    except Bad as e:
        cx.fail('generated source: %s' % e)


def _check(cx, res, lang, names, compress):
    J = res.json
    fm, cn = J['fragments_map'], J['compressed_names']
    frag = {}
    for f in fm:
        i = fm[f]
        cx.check(And(i >= 1, i <= 31), 'fragment index')
        if i in frag:
            cx.fail('two fragments with the same index')
        frag[i] = codes(f)
    if compress:
        cx.check(len(cn) == len(names), 'number of compressed names')
        for n in names:
            bs = codes(cn[n])
            cx.check(same_codes(expand(bs, frag), codes(n)),
                     'compressed name in the database')
            cx.check(And(*[b != 0 for b in bs]), 'NUL in a compressed name')
    ext = EXT[lang]
    I = File(res.files['zone_infos.' + ext], ext)
    pre = 'k' if lang == 'arduino' else 'kAtc'
    tab = I.get(pre + 'Fragments')
    cfrag = {}
    for i, v in enumerate(tab.items):
        if i == 0:
            if isinstance(v, Str):
                cx.fail('fragment 0 is usable')
            continue
        if not isinstance(v, Str):
            v = I.get(v)
        cfrag[i] = literal(v)
    ctx = I.get('kZoneContext' if lang == 'arduino' else 'kzonedbZoneContext')
    pos = -4
    cx.check(num(ctx[pos]) == len(tab), 'number of fragments in the context')
    for n in names:
        sym = n.replace('/', '_').replace('-', '_')
        got = [v for k, v in I.pairs if same(k, cat(pre, 'ZoneName', sym))]
        if len(got) != 1:
            cx.fail('name string of a zone is missing')
            continue
        bs = literal(got[0])
        cx.check(And(*[b != 0 for b in bs]), 'NUL in an emitted name')
        cx.check(same_codes(expand(bs, cfrag), codes(n)),
                 'emitted name expands to another name')
        if compress:
            cx.check(same_codes(bs, codes(cn[n])),
                     'emitted name differs from the database')
            if any(isinstance(b, int) and b < 32 for b in bs):
                cx.cover('compressed')
                for a, b in zip(bs, bs[1:]):
                    if isinstance(a, int) and a < 32 and isinstance(
                            b, SymInt):
                        cx.cover('hex-follows', hex_nibble(b) >= 0)
                cx.cover('adjacent-references', isinstance(bs[0], int)
                         and bs[0] < 32 and len(bs) > 1 and isinstance(
                             bs[1], int) and bs[1] < 32)
            else:
                cx.cover('uncompressed-fragment')
        else:
            cx.check(not any(isinstance(b, int) and b < 32 for b in bs),
                     'reference in an uncompressed name')
            cx.cover('nocompress')


def same(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else bool(r)


def tail(cx, n, k, names=()):
    """A final component; the last character keeps the names distinct."""
    return cat(*[name_char(cx, '%s.%d' % (n, i)) for i in range(k)])


def small(cx, lang, shape, n, k, compress=True):
    """n names sharing components or not."""
    names = []
    ends = 'pqrstuvw'
    for i in range(n):
        t = cat(alnum_char(cx, 't%d' % i), ends[i]) if i == 0 else ends[i]
        if shape == 'first':
            c = 'e' if i < n - k else alnum_char(cx, 'c%d' % i)
            nm = cat('Ab', c, '/', t)
        elif shape == 'second':
            c = 'a' if i < n - k else alnum_char(cx, 'c%d' % i)
            nm = cat('Zedd/bc', c, '/', t)
        elif shape == 'short':
            c = 'A' if i < n - k else alnum_char(cx, 'c%d' % i)
            nm = cat('A/Bc' if i % 2 else 'B', c, '/', t)
        elif shape == 'same':
            # the final component equals a fragment
            c = 'e' if i < n - k else alnum_char(cx, 'c%d' % i)
            nm = cat('Abc', c, '/', 'Abce') if i == n - 1 else cat(
                'Abce/', t)
        else:
            # no slash, or the same component twice
            nm = cat('Abcd/Abcd/', t) if i % 2 else cat(
                'Abcd', alnum_char(cx, 'c%d' % i), '/', t)
        names.append(nm)
    lines = []
    links = names[n // 2:] if shape != 'zones' else []
    for i, x in enumerate(names):
        if x in links or i >= n // 2:
            lines.append(link_line(names[0], x))
            cx.cover('link')
        else:
            lines += zone_lines(x, [('%d:00' % i, '-', 'X')])
    o = dict(compress=True) if compress else dict(nocompress=True)
    res = run_main(cx, lines, default_opts(
        'complete', languages=lang, actions='json,zonedb',
        skip_bufestimator=False, **o))
    if not db.generated(res):
        hs = [djb2(x) for x in names]
        cx.check(Or(*[h == 0 for h in hs], *[
            a == b for i, a in enumerate(hs) for b in hs[:i]]),
            'valid names are refused')
        return
    if compress:
        cx.cover('second', shape == 'second')
        cx.cover('rare', len(res.json['fragments_map']) < 1)
    check(cx, res, lang, names, compress)


def djb2(s):
    h = 5381
    for c in codes(s):
        h = (33 * h + c) % 2**32
    return h


def many(cx, lang, n):
    """n fragments, the last one only when a symbolic letter agrees."""
    names = []
    for f in range(n):
        for j in range(4):
            c = chr(97 + f % 26)
            if f == n - 1 and j == 3:
                # lower case: no hash collisions
                c = cx.int('c', 97, 122)
                c = chr(c) if isinstance(c, int) else SymStr.char(c)
            names.append(cat('F%02d' % (f // 2), c, '/x%d' % j) if f % 2 else
                         cat('G%02d' % (f // 2), c, '/x%d' % j))
    lines = zone_lines(names[0], [('0', '-', 'X')])
    lines += [link_line(names[0], x) for x in names[1:]]
    res = run_main(cx, lines, default_opts(
        'complete', languages=lang, actions='json,zonedb',
        skip_bufestimator=False), observe=False)
    if db.generated(res):
        k = len(res.json['fragments_map'])
        cx.check(k <= 31, 'more fragments than references')
        cx.cover('many-ok', k >= 28)
        check(cx, res, lang, names)
        return
    ds = codes(names[-1])[3]
    full = ds == codes(names[-2])[3]
    cx.check(n + If(full, 0, -1) >= 31, 'few fragments are refused')
    cx.cover('too-many')


def literals(cx, mod, n):
    m = env.module(cx, 'generator.' + mod)
    f = getattr(m, 'compressed_name_to_c_string', None)
    if f is None:
        raise Inconclusive('compressed_name_to_c_string() is gone')
    cs = []
    for i in range(n):
        c = cx.int('c%d' % i, 1, 126)
        cx.assume(And(c != 34, c != 92, c != 10, c != 35,
                      Not(And(c >= 39, c <= 42)),
                      Or(c < 32, alnumish(c))))
        cs.append(c)
    t = f(cat(*[SymStr.char(c) if not isinstance(c, int) else chr(c)
                for c in cs]))
    try:
        F = File(cat('const char x[] = ', t, ';\n'), 'c')
        got = literal(F.get('x'))
    except Bad as e:
        cx.fail('string literal: %s' % e)
        return
    cx.check(same_codes(got, cs), 'the literal denotes another string')
    cx.cover('literal')


def alnumish(c):
    return Or(between(c, 48, 57), between(c, 65, 90), between(c, 97, 122),
              c == 43, c == 45, c == 47, c == 95)


def jobs(tier):
    q = tier == 'quick'
    out = []
    for lang in ('arduino', 'c'):
        for shape, n, k in [('first', 5, 2), ('second', 5, 2),
                            ('short', 5, 2), ('same', 5, 1),
                            ('double', 4, 0)] + (
                [] if q else [('first', 6, 3), ('second', 6, 3),
                              ('short', 8, 2), ('double', 8, 0),
                              ('first', 4, 4)]):
            out.append(Job('%s-%s-%d-%d' % (lang, shape, n, k), small,
                           lang=lang, shape=shape, n=n, k=k))
        out.append(Job('%s-none' % lang, small, lang=lang, shape='first',
                       n=4, k=1, compress=False))
        for n in ((31, 32) if q else range(29, 35)):
            out.append(Job('%s-many-%d' % (lang, n), many, lang=lang, n=n,
                           validate=1, budget=300))
    for mod in ('argenerator', 'cgenerator'):
        for n in ((1, 2, 4) if q else (1, 2, 3, 4, 5, 6)):
            out.append(Job('literal-%s-%d' % (mod, n), literals, mod=mod,
                           n=n))
    return out


from pysym.core import SymInt  # noqa: E402
from pysym.strings import SymStr, _norm  # noqa: E402
from harness.text import num  # noqa: E402
