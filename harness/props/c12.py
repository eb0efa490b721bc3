"""C12: Go string tables index back to the original strings."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.godb import *
from harness.text import File, Bad, num as value

BOUNDS = ('2..3 letters, 2..3 formats and 2..4 zone and link names of 1..3 '
          'symbolic characters, equal to, prefixes of or different from each '
          'other, in one or two policies and zones; tables of 9..22 entries; '
          'total sizes within 3 of the 8 and 16 bit limits')
OUTSIDE = 'non-ASCII text; more symbolic strings per table'
COVERS = ['letter', 'empty-letter', 'format', 'percent', 'name', 'link-name',
          'shared', 'wrapped', 'letters-abort', 'letters-ok', 'formats-abort',
          'formats-ok', 'names-abort', 'names-ok', 'prefix']
O = dict(languages='go', actions='json,zonedb', nostrict=True)


def check_strings(cx, res):
    try:
        d = GoDb(cx, res)
        _strings(cx, d, res.json)
    except Bad as e:
        cx.fail('generated Go source: %s' % e)


def _strings(cx, d, J):
    Z, L, PO = J['zones_map'], J['links_map'], J['policies_map']
    got = [pick(cx, d.names, i[1], 'name') for i in d.infos]
    for n in list(Z.keys()) + list(L.keys()):
        hits = [k for k, g in enumerate(got) if same(g, n)]
        if len(hits) != 1:
            cx.fail('%d records are named %s' % (len(hits), env_str(n)))
            continue
        _, _, ei, ec, ti = d.infos[hits[0]]
        cx.cover('name')
        if n in L:
            cx.cover('link-name')
            t = pick(cx, d.infos, ti, 'target')
            cx.check(pick(cx, d.names, t[1], 'name') == L[n],
                     'name of a link target')
            continue
        es = Z[n]['eras']
        raws = block(cx, d.eras, ei, ec, 'era')
        cx.check(len(es) == len(raws), 'number of eras')
        for raw, e in zip(raws, es):
            f = pick(cx, d.formats, raw[0], 'format')
            cx.check(f == e['format_short'], 'format_short of an era')
            src = e['format']
            if isinstance(src, str) and src != '%z':
                cx.check(f == src.replace('%s', '%'), 'format of an era')
                cx.cover('percent', '%' in src)
            cx.cover('format')
            p = e['policy_name']
            if p is None:
                continue
            ri, rc = pick(cx, d.policies, raw[1], 'policy')
            rs = PO[p]['rules']
            rr = block(cx, d.rules, ri, rc, 'rule')
            cx.check(len(rr) == len(rs), 'number of rules')
            for a, r in zip(rr, rs):
                t = pick(cx, d.letters, a[8], 'letter')
                cx.check(t == r['letter'], 'letter of a rule')
                cx.cover('letter')
                cx.cover('empty-letter', t == '')
    cx.cover('wrapped', max(len(d.letters), len(d.formats),
                            len(d.names)) > 10)


def env_str(n):
    return n if isinstance(n, str) else '<symbolic>'


def same(a, b):
    r = a == b
    return r if isinstance(r, bool) else bool(r)


def run(cx, lines, must=True):
    res = run_main(cx, lines, default_opts('complete', 1980, 2030, **O))
    if db.generated(res):
        check_strings(cx, res)
        return res
    if must:
        raise Inconclusive('not generated: %s' % (res.exc,))
    return None


def letters(cx, lens, npol):
    ls = []
    for i, n in enumerate(lens):
        ls.append(cx.text('l%d' % i, n, 65, 70) if n else '-')
    lines = []
    for i, l in enumerate(ls):
        p = 'PQ'[i % npol]
        lines.append(rule_line(p, 1980, 'max', 3 + i, '8', '2:00',
                               '1:00' if i % 2 == 0 else '0', l))
        if i % 2 == 0:
            lines.append(rule_line(p, 1980, 'max', 8 + i, '8', '2:00', '0',
                                   'AB'))
    for i in range(npol):
        lines += zone_lines('Z/%d' % i, [('1:00', 'PQ'[i], 'F%s')])
    for i in range(len(ls)):
        for k in range(i):
            cx.cover('shared', eq(ls[i], ls[k]))
            if lens[i] == 2 and lens[k] == 1:
                cx.cover('prefix', ls[i].startswith(ls[k]))
    run(cx, lines)


def formats(cx, shapes):
    es = []
    for i, s in enumerate(shapes):
        parts = []
        for k, ch in enumerate(s):
            parts.append('%s' if ch == '%' else '/' if ch == '/' else
                         cx.char('f%d.%d' % (i, k), 65, 68))
        f = cat(*parts)
        u = (until(1990 + i),) if i < len(shapes) - 1 else ()
        es.append(('1:00', 'P' if '%' in s or '/' in s else '-', f) + u)
    lines = [rule_line('P', 1980, 'max', 3, '8', '2:00', '1:00', 'D'),
             rule_line('P', 1980, 'max', 10, '8', '2:00', '0', 'S')]
    lines += zone_lines('Z/A', es)
    run(cx, lines)


def names(cx, zs, ls):
    def mk(tag, s):
        return cat(*[cx.char('%s.%d' % (tag, k), 65, 68) if c == '?' else c
                     for k, c in enumerate(s)])
    zn = [mk('z%d' % i, s) for i, s in enumerate(zs)]
    ln = [mk('l%d' % i, s) for i, s in enumerate(ls)]
    alln = zn + ln
    for i, a in enumerate(alln):
        for b in alln[:i]:
            cx.assume(a != b)
    lines = []
    for i, z in enumerate(zn):
        lines += zone_lines(z, [('%d:00' % i, '-', 'F%d' % i)])
    for i, l in enumerate(ln):
        lines.append(link_line(zn[i % len(zn)], l))
    run(cx, lines, must=False)      # equal ids or symbols may abort


def many(cx, what, n):
    """Tables with several lines of offsets."""
    c = cx.char('c', 65, 90)
    k = cx.forked('k', 0, 2) * (n - 1) // 2
    lines = []
    if what == 'letters':
        for i in range(n):
            l = cat(c, 'x') if i == k else 'L%02d' % i
            lines.append(rule_line('P', 1980 + i, 'only', 3, '8', '2:00',
                                   '1:00', l))
        lines.append(rule_line('P', 1980, 'max', 10, '8', '2:00', '0', 'S'))
        lines += zone_lines('Z/A', [('1:00', 'P', 'F%s')])
    elif what == 'formats':
        lines = zone_lines('Z/A', [
            ('1:00', '-', cat(c, 'x') if i == k else 'F%02d' % i)
            + ((until(1985 + i),) if i < n - 1 else ()) for i in range(n)])
    else:
        for i in range(n):
            lines += zone_lines(cat(c, 'x') if i == k else 'F%02d' % i,
                                [('1:00', '-', 'F')])
    run(cx, lines, must=False)


def limit(cx, what, d):
    """Total string sizes near the limit."""
    c = cx.char('c', 66, 90)
    if what == 'letters':
        l = 'A' * 250
        a = cat(c, 'B' * (255 - 250 - 2 + d))
        lines = [rule_line('P', 1980, 'max', 3, '8', '2:00', '1:00', l),
                 rule_line('P', 1980, 'max', 4, '8', '2:00', '1:00', a),
                 rule_line('P', 1980, 'max', 10, '8', '2:00', '0', '1')]
        lines += zone_lines('Z/A', [('1:00', 'P', 'F%s')])
        total = 255 + d
    elif what == 'formats':
        f = cat(c, 'F' * (65535 - 5 + d))
        lines = zone_lines('Z/A', [('1:00', '-', 'ABCD', until(1990)),
                                   ('1:00', '-', f)])
        total = 65535 + d
    else:
        # the name list is rendered several times: keep one long name
        f = cat('N' * (65535 - 4 + d), c)
        lines = zone_lines('Z/A', [('1:00', '-', 'ABCD', until(1990)),
                                   ('1:00', '-', 'F')])
        lines += zone_lines(f, [('1:00', '-', 'ABCD')])
        total = 65535 + d
    res = run(cx, lines, must=False)
    if res is None:
        cx.cover(what + '-abort', d > 0)
    else:
        cx.cover(what + '-ok')


def jobs(tier):
    out = []
    sh = [(1, 1), (2, 1), (0, 1), (1, 2, 1)]
    if tier != 'quick':
        sh += [(2, 2), (2, 0, 1), (3, 2, 1), (1, 1, 1, 1)]
    for s in sh:
        for npol in (1, 2):
            out.append(Job('letters-%s-%d' % (''.join(map(str, s)), npol),
                           letters, lens=s, npol=npol))
    fs = [('a', 'bc'), ('a%', '%b'), ('a/b', 'a'), ('a%b', 'ab', 'b')]
    if tier != 'quick':
        fs += [('ab', 'ab', 'ab'), ('a%', 'a%', '%'), ('ab/c', 'a/bc')]
    for i, f in enumerate(fs):
        out.append(Job('formats-%d' % i, formats, shapes=f))
    ns = [(('Z/?', 'Z?'), ()), (('?/A', 'B'), ('?',)),
          (('Z/?',), ('Z/?', 'C??'))]
    if tier != 'quick':
        ns += [(('Z?', 'Z??'), ('Z???',)), (('?', '??'), ()),
               (('Z/?', 'Y/?'), ('?/Z', '?/X'))]
    for i, (z, l) in enumerate(ns):
        out.append(Job('names-%d' % i, names, zs=z, ls=l))
    for w in ('letters', 'formats', 'names'):
        for n in (9, 10, 11, 12, 21, 22) if w == 'letters' or \
                tier != 'quick' else (10, 11, 22):
            out.append(Job('many-%s-%d' % (w, n), many, what=w, n=n))
        for d in (0, 1, 2) if tier == 'quick' else (-2, -1, 0, 1, 2, 3):
            out.append(Job('limit-%s-%d' % (w, d), limit, what=w, d=d,
                           validate=1))
    return out
