"""C22: TZ source text is read record by record without loss."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('1..4 rules of two policies, 1..3 zones of 1..3 eras and 2 links, '
          'spread over two files, with symbolic years, days, times, letters; '
          'separators of 1..3 symbolic blanks (space or tab); trailing blanks '
          'and comments of up to 4 symbolic printable characters; comment '
          'and blank lines between any two records; every month in every '
          'spelling of three letters or more and any case')
OUTSIDE = ('the compact spellings of zic (R, Z, L, "o", "ma", months of less '
           'than three letters), quoted fields, "minimum", continuation '
           'lines that start in column 1, malformed lines')
COVERS = ['rule', 'only', 'max', 'year', 'suffix', 'no-suffix', 'month-full',
          'month-case', 'comment', 'comment-hash', 'trailing', 'blank-line',
          'comment-line', 'tabs', 'spaces', 'era-0', 'era-1', 'era-2',
          'era-3', 'era-4', 'link', 'indent-space', 'indent-tab',
          'comment-glued', 'two-files', 'interleaved', 'rules-after']
FULL = ['', 'January', 'February', 'March', 'April', 'May', 'June', 'July',
        'August', 'September', 'October', 'November', 'December']


MINUTE = 30             # minutes are the subject of C06; symbolic ones add notes


def blank(cx, n):
    c = cx.int(n, 0, 1)
    c = If(c == 0, 32, 9)
    cx.cover('tabs', c == 9)
    cx.cover('spaces', c == 32)
    return chr(c) if isinstance(c, int) else SymStr.char(c)


class Style:
    """How lines are laid out."""

    def __init__(self, cx, name, sep='\t', comment=0, tail=0):
        self.cx, self.name, self.n = cx, name, 0
        # a negative comment length: directly after the last column
        self.glued = comment < 0
        comment = abs(comment)
        self.sep, self.comment, self.tail = sep, comment, tail

    def blanks(self, k):
        out = []
        for _ in range(k):
            self.n += 1
            out.append(blank(self.cx, '%s.b%d' % (self.name, self.n)))
        return cat(*out)

    def gap(self):
        if self.sep in '\t ' and isinstance(self.sep, str):
            return self.sep
        return self.blanks(int(self.sep))

    def line(self, fields, lead=''):
        out = [lead]
        for i, f in enumerate(fields):
            if i:
                out.append(self.gap())
            out.append(f)
        out.append(self.blanks(self.tail))
        self.cx.cover('trailing', self.tail > 0)
        if self.comment:
            self.n += 1
            if not self.tail and not self.glued:
                out.append(' ')
            out.append('#')
            self.cx.cover('comment-glued', self.glued)
            for i in range(self.comment):
                c = self.cx.int('%s.c%d.%d' % (self.name, self.n, i), 32, 126)
                self.cx.cover('comment', c != 35)
                self.cx.cover('comment-hash', c == 35)
                out.append(chr(c) if isinstance(c, int) else
                           SymStr.char(c))
        return cat(*out)


class Source:
    """Collects lines and what they denote."""

    def __init__(self, cx):
        self.cx = cx
        self.rules, self.zones, self.links = {}, {}, {}

    def rule(self, st, p, i, to, save, suffix='', on='n', month=None):
        cx = self.cx
        n = 'r%d' % i
        f = cx.int(n + 'f', 1990 + 2 * i, 1991 + 2 * i) \
            if on == 'n' else 1990 + 2 * i
        if to == 'y':
            t = cx.int(n + 't', 2010 + 2 * i, 2011 + 2 * i) \
                if on == 'n' else 2011 + 2 * i
            tt = num(t)
            cx.cover('year')
        else:
            t = f if to == 'only' else TO_MAX
            tt = to
            cx.cover(to)
        m, mt = month if month else (2 + i, MONTHS[2 + i])
        d = cx.int(n + 'd', 10, 28)
        h = cx.int(n + 'h', 10, 23)
        k = MINUTE
        letter = cx.text(n + 'l', 1, 65, 90)
        dw, dm, dt = 0, d, num(d)
        if on != 'n':
            dw, dm, dt = {'lastSun': (7, 0, on), 'Mon>=8': (1, 8, on),
                          'Fri<=20': (5, -20, on)}[on]
        self.rules.setdefault(p, []).append((
            f, t, m, dw, dm, h * 3600 + k * 60, suffix or 'w',
            {'0': 0, '1:00': 3600, '0:30': 1800}[save], letter))
        cx.cover('suffix' if suffix else 'no-suffix')
        return st.line(['Rule', p, num(f), tt, '-', mt, dt,
                        cat(hms(False, h, k), suffix), save, letter])

    def era(self, st, z, i, rules='-', until=0, suffix='', lead=None,
            month=None):
        """until: number of UNTIL fields."""
        cx = self.cx
        n = 'z%d' % i
        o = cx.int(n + 'o', 10, 12)
        om = MINUTE
        f = cat(cx.text(n + 'a', 1, 65, 90), '%s' if rules != '-' else 'T')
        fields = [hms(False, o, om), rules, f]
        y, m, d, s, sf = INF, 1, 1, 0, 'w'
        if until:
            y = cx.int(n + 'y', 2030 + 10 * (i % 4), 2039 + 10 * (i % 4))
            fields.append(num(y))
        if until > 1:
            m, mt = month if month else (3 + i, MONTHS[3 + i])
            fields.append(mt)
        if until > 2:
            d = cx.int(n + 'd', 10, 28)
            fields.append(num(d))
        if until > 3:
            h = cx.int(n + 'h', 10, 23)
            k = MINUTE
            s = h * 3600 + k * 60
            sf = suffix or 'w'
            fields.append(cat(hms(False, h, k), suffix))
        cx.cover('era-%d' % until)
        self.zones.setdefault(z, []).append((
            o * 3600 + om * 60, None if rules == '-' else rules, f, y, m, d,
            s, sf))
        if lead is None:
            return st.line(['Zone', z] + fields)
        cx.cover('indent-space', lead[:1] == ' ')
        cx.cover('indent-tab', lead[:1] == '\t')
        return st.line(fields, lead)

    def link(self, st, target, name):
        self.links[name] = target
        self.cx.cover('link')
        return st.line(['Link', target, name])

    def check(self, files, scope='complete'):
        cx = self.cx
        res = run_main(cx, files, default_opts(scope, 1985, 2100))
        if not db.generated(res):
            cx.fail('a well-formed source is refused: %s' % (res.exc,))
            return
        j = res.json
        cx.check(len(j['links_map']) == len(self.links), 'number of links')
        for l, t in self.links.items():
            cx.check(l in j['links_map'] and eq(j['links_map'][l], t),
                     'a link')
        cx.check(len(j['zones_map']) == len(self.zones), 'number of zones')
        for z, want in self.zones.items():
            es = db.eras(res, z)
            if es is None:
                cx.fail('a zone is lost')
                continue
            cx.check(len(es) == len(want), 'number of eras')
            for e, w in zip(es, want):
                for k, x in zip(('offset_seconds', 'policy_name', 'format',
                                 'until_year', 'until_month', 'until_day',
                                 'until_seconds', 'until_time_suffix'), w):
                    cx.check(eq(e[k], x), k)
        cx.check(len(j['policies_map']) == len(self.rules),
                 'number of policies')
        for p, want in self.rules.items():
            rs = db.rules(res, p)
            if rs is None:
                cx.fail('a policy is lost')
                continue
            rs = [r for r in rs if not db.is_anchor(r)]
            cx.check(len(rs) == len(want), 'number of rules')
            for r, w in zip(rs, want):
                for k, x in zip(('from_year', 'to_year', 'in_month',
                                 'on_day_of_week', 'on_day_of_month',
                                 'at_seconds', 'at_time_suffix',
                                 'delta_seconds', 'letter'), w):
                    cx.check(eq(r[k], x), k)
        return res


def std(src, st, p='P'):
    """A standard rule so that the policy is complete."""
    return src.rule(st, p, 7, 'max', '0')


def rule_layout(cx, sep, comment, tail, to, suffix, on):
    src = Source(cx)
    st = Style(cx, 's', sep, comment, tail)
    plain = Style(cx, 'p')
    L = [src.rule(st, 'P', 0, to, '1:00', suffix, on), std(src, plain),
         src.era(plain, 'Z/A', 3, 'P')]
    cx.cover('rule')
    src.check(L)


def zone_layout(cx, sep, comment, tail, untils, suffix, lead):
    src = Source(cx)
    st = Style(cx, 's', sep, comment, tail)
    plain = Style(cx, 'p')
    L = []
    for i, u in enumerate(untils):
        ld = None if i == 0 else \
            {'t': '\t\t\t', 'T': '\t', 's': '    ', 'm': ' \t ',
             'M': '\t '}[lead]
        L.append(src.era(st, 'Z/A', i, 'P' if i == 1 else '-', u, suffix,
                         ld))
    L += [src.rule(plain, 'P', 0, 'max', '1:00'), std(src, plain)]
    if len(untils) < 2:
        L.append(src.era(plain, 'Z/B', 3, 'P'))
    cx.cover('rules-after')
    src.check(L)


def link_layout(cx, sep, comment, tail):
    src = Source(cx)
    st = Style(cx, 's', sep, comment, tail)
    L = [src.era(st, 'Z/A', 0), src.link(st, 'Z/A', 'L/B'),
         src.link(st, 'Z/A', 'L/A')]
    src.check(L)


def months(cx, m, where, case):
    src = Source(cx)
    plain = Style(cx, 'p')
    full = FULL[m]
    k = cx.forked('len', 3, len(full))
    out = []
    for i, ch in enumerate(full[:k]):
        lo = cx.int('c%d' % i, 0, 1) if case and i < 6 else \
            0 if i == 0 else 1
        c = If(lo == 1, ord(ch.lower()), ord(ch.upper()))
        out.append(chr(c) if isinstance(c, int) else SymStr.char(c))
    mt = cat(*out)
    cx.cover('month-full', k == len(full))
    cx.cover('month-case', case and not isinstance(mt, str))
    if not cx.sym:
        cx.cover('month-case', case)
    if where == 'rule':
        on = cx.choice('on', ['n', 'lastSun'])
        if m == 12:
            on = 'n'
        L = [src.rule(plain, 'P', 0, 'y', '1:00', on=on, month=(m, mt)),
             src.rule(plain, 'P', 7, 'max', '0', on='lastSun'),
             src.era(plain, 'Z/A', 3, 'P')]
    else:
        u = cx.forked('u', 2, 4)
        L = [src.era(plain, 'Z/A', 0, '-', u, month=(m, mt)),
             src.era(plain, 'Z/A', 1, lead='\t\t\t')]
    src.check(L)


FILLERS = ['', '#', '# Rule P 1 2 - Jan 1 0 0 X', '\t# comment', '   ',
           '\t', '\t\t\t', '#\tZone Q/Q 1:00 - X', '# Link Z/A Z/Q', '\t#']


def mixed(cx, order, fill, files):
    """Records of several policies and zones in any order; a filler line at
    a symbolic place."""
    src = Source(cx)
    p = Style(cx, 'p')
    recs = {
        '1': lambda: [src.rule(p, 'P', 0, 'y', '1:00')],
        '2': lambda: [src.rule(p, 'P', 7, 'max', '0')],
        '3': lambda: [src.rule(p, 'Q', 2, 'max', '0:30', 'u', 'lastSun')],
        '4': lambda: [src.rule(p, 'Q', 3, 'only', '0', 's')],
        'A': lambda: [src.era(p, 'Z/A', 0, 'P', 1),
                      src.era(p, 'Z/A', 1, 'Q', 4, 'u', '\t\t\t'),
                      src.era(p, 'Z/A', 2, '-', lead='\t\t\t')],
        'B': lambda: [src.era(p, 'Z/B', 4, 'Q', 2),
                      src.era(p, 'Z/B', 5, 'P', lead='\t')],
        'C': lambda: [src.era(p, 'Z/C', 6)],
        'l': lambda: [src.link(p, 'Z/B', 'L/1')],
        'm': lambda: [src.link(p, 'Z/A', 'L/0')],
    }
    L, cut = [], None
    for k in order:
        if k == '|':
            cut = len(L)
            continue
        L += recs[k]()
    if fill:
        at = cx.forked('at', 0, len(L))
        f = cx.choice('f', FILLERS)
        # a filler of comment text
        if f == '#':
            f = cat('#', cx.text('w', 3, 32, 126))
        L.insert(at, f)
        if cut is not None and at < cut:
            cut += 1
        cx.cover('blank-line', f == '' if isinstance(f, str) else False)
        cx.cover('comment-line')
    cx.cover('interleaved')
    if cut is not None:
        cx.cover('two-files')
        L = dict(zip(files, (L[:cut], L[cut:])))
    src.check(L)


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, **kw):
        out.append(Job(name, fn, **kw))
    tos = ['y', 'only', 'max']
    sfx = ['', 'w', 's', 'u']
    ons = ['n', 'lastSun', 'Mon>=8', 'Fri<=20']
    i = 0
    for sep in ('\t', ' ', '1', '2', '3'):
        for comment, tail in ((0, 0), (0, 3), (4, 0), (1, 2), (4, 3), (3, 1),
                              (-3, 0)):
            for r in range(3):
                k = {'\t': 't', ' ': 'b'}.get(sep, sep)
                nm = '%s-%d-%d-%d' % (k, comment, tail, r)
                add('rule-' + nm, rule_layout, sep=sep, comment=comment,
                    tail=tail, to=tos[i % 3], suffix=sfx[i % 4],
                    on=ons[(i + i // 4) % 4])
                us = [(4, 0), (1, 2, 0), (3, 0), (2, 0), (0,), (4, 1, 0),
                      (2, 4, 0)][i % 7]
                add('zone-' + nm, zone_layout, sep=sep, comment=comment,
                    tail=tail, untils=us, suffix=sfx[i % 4],
                    lead='tTsmM'[i % 5])
                i += 1
            add('link-%s-%d-%d' % (k, comment, tail), link_layout, sep=sep,
                comment=comment, tail=tail)
    for m in range(1, 13):
        add('month-rule-%d' % m, months, m=m, where='rule', case=True)
        add('month-until-%d' % m, months, m=m, where='until', case=True)
    for od in ('1234ABClm', 'AB1C2l3m4', 'mAl4321CB', '13|24ABlCm',
               'Al2|1B43mC', 'C31A|m42Bl'):
        add('mixed-%s' % od, mixed, order=od, fill=False,
            files=('africa', 'europe'))
    if not q:
        for to in tos:
            for sf in sfx:
                for on in ons:
                    add('rule-all-%s-%s-%s' % (to, sf, on), rule_layout,
                        sep='2', comment=4, tail=2, to=to, suffix=sf, on=on)
        for u in ((4, 3, 0), (1, 4, 0), (2, 2, 0), (3, 1, 0), (4, 4, 4, 0)):
            for sf in sfx:
                for ld in 'tTsmM':
                    add('zone-all-%s-%s-%s' % (''.join(map(str, u)), sf, ld),
                        zone_layout, sep='2', comment=4, tail=2, untils=u,
                        suffix=sf, lead=ld)
    for od in ('A12B34l', '3|B1C42A', '12A|34B') + (() if q else (
            'A12B34lm', 'BA|4321lCm', 'lmABC1234')):
        add('fill-%s' % od, mixed, order=od, fill=True,
            files=('africa', 'southamerica'))
    return out
