"""C21: abbreviation formats and letters survive to every output."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File, Bad, Ref, Group, Str, num
from harness.godb import GoDb, pick, block, index

BOUNDS = ('formats of 1..4 pieces out of symbolic letters and digits, "%s", '
          '"%z", "/", "+", "-"; letters of 0..6 symbolic characters (letters, '
          'digits, "+", "-"), 1..4 rules in one or two policies; 1..3 zones '
          'of 1..2 eras; RULES "-", fixed or a policy; every language and '
          'scope')
OUTSIDE = ('characters that are not letters, digits, "+", "-", "/" or "%"; '
           'a "%" not followed by "s" or "z"; more than two policies')
COVERS = ['python', 'arduino', 'c', 'go', 'numeric', 'slash', 'letter-dash',
          'letter-long', 'plain', 'abort-s', 'abort-z', 'shared-letter',
          'shared-format', 'anchor', 'two-policies', 'equal-formats',
          'fixed-slash', 'single']
LANGS = {'python': dict(languages='python'),
         'arduino': dict(languages='arduino', skip_bufestimator=False),
         'c': dict(languages='c', skip_bufestimator=False),
         'go': dict(languages='go')}


def derive(short, letter):
    """Abbreviation of an emitted format (already without '%z')."""
    return subst(short, '%', letter)


def subst(f, old, new):
    return join(f.split(old), new)


def join(parts, sep):
    out = []
    for i, x in enumerate(parts):
        if i:
            out.append(sep)
        out.append(x)
    return cat(*out)


# views: (letters of policy P as [(month, letter)], formats of zone Z) ------

class Json:
    def __init__(self, cx, res):
        self.j = res.json

    def rules(self, p):
        return [(r['in_month'], r['letter'])
                for r in self.j['policies_map'][p]['rules']]

    def formats(self, z):
        return [e['format_short'] for e in self.j['zones_map'][z]['eras']]


class Py:
    def __init__(self, cx, res):
        self.p = File(res.files['zone_policies.py'], 'py')
        self.i = File(res.files['zone_infos.py'], 'py')

    def rules(self, p):
        return [(num(r.get('in_month')), r.get('letter').text())
                for r in self.p.get('ZONE_RULES_' + p).items]

    def formats(self, z):
        # the Python database keeps the FORMAT column
        return [e.get('format').text()
                for e in self.i.get('ZONE_ERAS_' + z.replace('/', '_')).items]


class Cc:
    def __init__(self, cx, res, lang):
        self.cx = cx
        ext = 'cpp' if lang == 'arduino' else 'c'
        self.pre = 'k' if lang == 'arduino' else 'kAtc'
        self.p = File(res.files['zone_policies.' + ext], ext)
        self.i = File(res.files['zone_infos.' + ext], ext)
        self.letters = []
        for v in self.i.get(self.pre + 'Letters').items:
            if not isinstance(v, Str):
                v = self.i.get(v.name if isinstance(v, Ref) else v)
            self.letters.append(v.text())

    def rules(self, p):
        out = []
        for r in self.p.get(self.pre + 'ZoneRules' + p).items:
            li = index(num(r[-1]))
            s = pick(self.cx, self.letters, li, 'letter')
            out.append((num(r[2]), s))
        return out

    def formats(self, z):
        return [e[1].text() for e in self.i.get(
            self.pre + 'ZoneEra' + z.replace('/', '_')).items]


class Go:
    def __init__(self, cx, res):
        self.cx = cx
        self.d = GoDb(cx, res)
        self.j = res.json

    def policy(self, p):
        # policies are listed by name, after the empty one
        names = sorted(self.j['policies_map'].keys())
        return self.d.policies[1 + names.index(p)]

    def rules(self, p):
        ri, rc = self.policy(p)
        return [(index(r[2]), pick(self.cx, self.d.letters, r[8], 'letter'))
                for r in block(self.cx, self.d.rules, ri, rc, 'rule')]

    def formats(self, z):
        for _, (zid, ni, ei, ec, ti) in enumerate(self.d.infos):
            if eq(pick(self.cx, self.d.names, ni, 'name'), z) is True:
                return [pick(self.cx, self.d.formats, e[0], 'format')
                        for e in block(self.cx, self.d.eras, ei, ec, 'era')]
        raise Bad('no record of ' + z)


def view(cx, res, lang):
    return {'json': Json, 'python': Py, 'go': Go}[lang](cx, res) \
        if lang in ('json', 'python', 'go') else Cc(cx, res, lang)


def verify(cx, res, lang, letters, formats):
    """letters: {policy: {month: letter, 'std': letter}};
    formats: {zone: [(FORMAT, policy)]}."""
    for lg in ('json', lang):
        try:
            v = view(cx, res, lg)
            for p, ls in letters.items():
                got = v.rules(p)
                cx.check(len(got) == len(ls), 'number of rules in ' + lg)
                first = True
                for m, t in got:
                    if not isinstance(m, int):
                        m = m.conc()
                    if m == 1 and first and 1 not in ls:
                        cx.check_eq(t, ls['std'], 'letter of the anchor in '
                                    + lg)
                        cx.cover('anchor')
                    else:
                        cx.check_eq(t, ls[m], 'letter in ' + lg)
                    first = False
            for z, fs in formats.items():
                got = v.formats(z)
                cx.check(len(got) == len(fs), 'number of eras in ' + lg)
                for g, (f, p) in zip(got, fs):
                    if lg == 'python':
                        cx.check_eq(g, f, 'FORMAT in ' + lg)
                        continue
                    if f == '%z':
                        cx.check_eq(g, '', 'numeric FORMAT in ' + lg)
                        cx.cover('numeric')
                        continue
                    cx.check_eq(g, f.replace('%s', '%'), 'FORMAT in ' + lg)
                    for l in (letters[p].values() if p else ['']):
                        cx.check_eq(derive(g, l), subst(f, '%s', l),
                                    'abbreviation in ' + lg)
            cx.cover(lg)
        except Bad as e:
            cx.fail('generated %s source: %s' % (lg, e))


ALNUM = [43, 45] + list(range(48, 58)) + list(range(65, 91))


def tchar(cx, n, lo=65, hi=70):
    c = cx.int(n, lo, hi)
    return chr(c) if isinstance(c, int) else SymStr.char(c)


def text(cx, n, k, wide=False):
    out = []
    for i in range(k):
        c = cx.int('%s.%d' % (n, i), 43 if wide else 65, 90 if wide else 69)
        if wide:
            cx.assume(Or(c == 43, c == 45, And(c >= 48, c <= 57), c >= 65))
        out.append(chr(c) if isinstance(c, int) else SymStr.char(c))
    return cat(*out)


def opts(lang, scope, **kw):
    o = dict(LANGS[lang])
    o.update(actions='json,zonedb', **kw)
    return default_opts(scope, 2000, 2030, **o)


def letters_job(cx, lang, scope, lens, two, wide):
    """lens: letter lengths of alternating standard and DST rules."""
    ls = [text(cx, 'l%d' % i, n, wide) if n else '-'
          for i, n in enumerate(lens)]
    L, want = [], {}
    for i, l in enumerate(ls):
        p = 'PQ'[i // 2] if two else 'P'
        std = i % 2 == 0
        m = 3 + i
        L.append(rule_line(p, 1995 + i // 2, 'max' if i < 2 or two else
                           2010 + i, m, '8', '2:00', '0' if std else '1:00',
                           l))
        w = want.setdefault(p, {})
        t = l if isinstance(l, str) else l
        if len(l) == 1:
            # '-' means nothing; forks
            if eq(l, '-') if isinstance(l, str) else bool(l == '-'):
                t = ''
        w[m] = t
        if std and 'std' not in w:
            w['std'] = t
        cx.cover('letter-dash', t == '' if isinstance(t, str) else False)
        cx.cover('letter-long', len(l) > 1)
        for k in range(i):
            cx.cover('shared-letter', eq(ls[k], l))
    fm = {}
    for i, p in enumerate(sorted(want)):
        f = cat('%s', tchar(cx, 'f%d' % i)) if i else 'A%sT'
        L += zone_lines('Z/%d' % i, [('%d:00' % i, p, f)])
        fm['Z/%d' % i] = [(f, p)]
    cx.cover('two-policies', two)
    res = run_main(cx, L, opts(lang, scope))
    if not db.generated(res):
        if res.exc is not None:
            cx.fail('a valid source is refused: %s' % (res.exc,))
        return
    verify(cx, res, lang, want, fm)


def single_job(cx, lang, scope, k, year):
    """A policy whose only rule is standard time."""
    l = text(cx, 'l', k, True) if k else '-'
    L = [rule_line('P', year, 'only' if year < 2000 else 'max', 4, '8',
                   '2:00', '0', l),
         rule_line('Q', 1990, 'max', 3, '8', '2:00', '0', 'U'),
         rule_line('Q', 1990, 'max', 9, '8', '2:00', '1:00', '-')]
    t = l
    if k < 2 and (l == '-' if isinstance(l, str) else bool(l == '-')):
        t = ''
    fm = {}
    for i, p in enumerate('PQ'):
        L += zone_lines('Z/' + p, [('%d:00' % i, p, 'A%sT')])
    res = run_main(cx, L, opts(lang, scope))
    if not db.generated(res):
        cx.fail('a valid source is refused: %s' % (res.exc,))
        return
    for lg in ('json', lang):
        try:
            v = view(cx, res, lg)
            got = v.rules('P')
            cx.check(len(got) in (1, 2), 'number of rules in ' + lg)
            for m, x in got:
                cx.check_eq(x, t, 'letter of a single rule in ' + lg)
            for z in ('Z/P', 'Z/Q'):
                f, = v.formats(z)
                cx.check_eq(f, 'A%sT' if lg == 'python' else 'A%T',
                            'FORMAT in ' + lg)
        except Bad as e:
            cx.fail('generated %s source: %s' % (lg, e))
    cx.cover('single')
    cx.cover('letter-dash', t == '' if isinstance(t, str) else False)


PIECES = ['a', 'b', '%s', '%z', '/', '+', '-']


def formats_job(cx, lang, scope, shapes, rules):
    """shapes: per zone a list of FORMATs (one per era): '?' a piece of any
    kind, other characters stand for themselves, 'x' a symbolic character."""
    letter = text(cx, 'l', 1)
    L = [rule_line('P', 1995, 'max', 3, '8', '2:00', '0', letter),
         rule_line('P', 1995, 'max', 9, '8', '2:00', '1:00', '-')]
    want = {'P': {3: letter, 9: '', 'std': letter}}
    fm = {}
    bad = ''
    odd = False
    seen = []
    used = False
    for i, (fs, rl) in enumerate(zip(shapes, rules)):
        es = []
        for k, (sh, ru) in enumerate(zip(fs, rl)):
            parts = []
            for q, ch in enumerate(sh):
                n = 'f%d.%d.%d' % (i, k, q)
                if ch == '?':
                    parts.append(cx.choice(n, PIECES[1:6]))
                elif ch == 'x':
                    parts.append(tchar(cx, n))
                elif ch in '%$':
                    parts.append({'%': '%s', '$': '%z'}[ch])
                else:
                    parts.append(ch)
            f = cat(*parts)
            ns, nz, nl = [parts.count(x) if all(isinstance(y, str)
                                                for y in parts) else
                          sum(1 for y in parts if isinstance(y, str)
                              and y == x) for x in ('%s', '%z', '/')]
            b = (nz and len(parts) > 1) or (ns and ru != 'P')
            if b:
                bad += 'z' if nz and len(parts) > 1 else 's'
            if ns + nl > 1 or nz > 1:
                odd = True
            if not b:
                cx.cover('slash', nl == 1 and not ns)
                cx.cover('fixed-slash', nl == 1 and ru == '1:00')
                cx.cover('plain', not ns and not nl and not nz)
            for o in seen:
                cx.cover('equal-formats', eq(o, f))
                cx.cover('shared-format', eq(o, f))
            seen.append(f)
            e = ['%d:00' % i, ru, f]
            if k + 1 < len(fs):
                e.append(until(2005 + k))
            es.append(tuple(e))
            fm.setdefault('Z/%d' % i, []).append(
                (f, 'P' if ru == 'P' else None))
            used = used or ru == 'P'
        L += zone_lines('Z/%d' % i, es)
    L += zone_lines('Z/p', [('5:00', 'P', 'Q%sQ')])
    fm['Z/p'] = [('Q%sQ', 'P')]
    res = run_main(cx, L, opts(lang, scope))
    if bad:
        # aborts: nothing is generated
        cx.check(res.exc is not None, "'%s' without a policy or text around "
                 "'%z' does not abort")
        cx.cover('abort-s', 'z' not in bad)
        cx.cover('abort-z', 's' not in bad)
        return
    if not db.generated(res):
        if not odd:
            cx.fail('a valid FORMAT is refused: %s' % (res.exc,))
        return
    verify(cx, res, lang, want, fm)


def jobs(tier):
    q = tier == 'quick'
    out = []

    def lt(lang, scope, lens, two=False, wide=False):
        out.append(Job('letters-%s-%s-%s%s%s' % (
            lang, scope, ''.join(map(str, lens)), '-two' if two else '',
            '-wide' if wide else ''), letters_job, lang=lang, scope=scope,
            lens=lens, two=two, wide=wide))

    def fo(lang, scope, shapes, rules):
        out.append(Job('formats-%s-%s-%s-%s' % (
            lang, scope, '.'.join('+'.join(s) for s in shapes),
            '.'.join('+'.join(r) for r in rules).replace(':', '')),
            formats_job, lang=lang, scope=scope, shapes=shapes, rules=rules))
    scopes = ['extended', 'complete', 'extended', 'complete']
    for i, lang in enumerate(LANGS):
        sc = scopes[i]
        other = 'complete' if sc == 'extended' else 'extended'
        lt(lang, sc, [1, 1], wide=True)
        lt(lang, other, [1, 0, 2])
        lt(lang, sc, [2, 1, 1, 0], two=True)
        lt(lang, 'basic' if lang != 'go' else sc, [0, 3] if q else [3, 3])
        lt(lang, sc, [4, 0, 6])
        fo(lang, sc, [['x%x'], ['x%x']], [['P'], ['P']])
        fo(lang, other, [['xx/x'], ['xx', '$']], [['P'], ['-', 'P']])
        fo(lang, sc, [['x/x'], ['x/x', '%']], [['1:00'], ['-', 'P']])
        for k in (0, 1, 2):
            for y in (1995, 2010) if not q or k == 1 else (1995,):
                out.append(Job('single-%s-%d-%d' % (lang, k, y), single_job,
                               lang=lang, scope=(sc, other)[k % 2], k=k,
                               year=y))
        if not q:
            lt(lang, sc, [2, 2, 2])
            lt(lang, other, [3, 2, 1, 1], two=True, wide=False)
            lt(lang, sc, [2, 2], wide=True)
            fo(lang, sc, [['xxx', 'x%'], ['xx%', '%x']],
               [['P', 'P'], ['P', 'P']])
            for ru in ('P', '-', '1:00'):
                fo(lang, sc, [['????']], [[ru]])
    for ru in ('P', '-', '1:00'):
        fo('python', 'extended', [['???']], [[ru]])
        fo('arduino' if ru == 'P' else 'c', 'complete', [['??']], [[ru]])
        fo('go', 'extended', [['??', 'A']], [[ru, '-']])
    return out
