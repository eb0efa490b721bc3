"""C23: C++, C and Python sources carry the same values as the database."""
import types

from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File, Bad, Ref, Group, Str, num
from harness.godb import index

BOUNDS = ('two or three policies of 1..3 rules and two or three zones of 1..3 '
          'eras; symbolic FROM, TO, IN, ON, AT, SAVE, LETTER of any rule and '
          'STDOFF, RULES, FORMAT, UNTIL of any era; symbolic one-letter '
          'policy and zone names (any order); symbolic window, buffer sizes '
          'and number of letters; the three scopes, strict and not')
OUTSIDE = ('comments of the generated sources; Jan/Feb rules, day '
           'expressions in symbolic years')
COVERS = ['python-rule', 'python-era', 'arduino-rule', 'arduino-era',
          'c-rule', 'c-era', 'python-context', 'arduino-context',
          'c-context', 'tiny', 'full-year', 'negative-offset', 'fixed-delta',
          'late', 'long-format', 'policy-none', 'policy-set',
          'until-suffix', 'at-suffix', 'anchor',
          'weekday', 'truncated', 'order-policies', 'order-zones',
          'buf-size', 'accurate-limited', 'accurate-unlimited',
          'two-letters', 'truncated-delta', 'truncated-save']
SUF = {'w': 0, 's': 16, 'u': 32}


def sfx(s):
    return SUF[s] if isinstance(s, str) else \
        If(s == 'w', 0, If(s == 's', 16, 32))


def time_ok(code, mod, seconds, suffix, high):
    """The code and modifier denote the database's time."""
    unit, rem = (15, 1) if high else (900, 60)
    return And(code * unit + mod % 16 * rem == seconds,
               mod // 16 * 16 == sfx(suffix), mod % 16 < 15)


def word(v):
    return v.name if isinstance(v, Ref) else v


class Cc:
    """The C++ or C database."""

    def __init__(self, cx, res, lang, scope):
        self.cx, self.lang, self.scope = cx, lang, scope
        self.high = scope == 'complete'
        ext = 'cpp' if lang == 'arduino' else 'c'
        self.lp, self.gp = ('k', 'k') if lang == 'arduino' else \
            ('kAtc', 'kzonedb')
        self.nil = 'nullptr' if lang == 'arduino' else 'NULL'
        self.P = File(res.files['zone_policies.' + ext], ext)
        self.I = File(res.files['zone_infos.' + ext], ext)
        hx = 'cpp' if lang == 'arduino' else 'c'
        self.PH = File(res.files['zone_policies.h'], hx)
        self.IH = File(res.files['zone_infos.h'], hx)

    def declared(self, file, sym, what):
        hits = [n for n, _ in file.externs if same(n, sym)]
        self.cx.check(len(hits) == 1, what + ' is not declared once')

    def define(self, name):
        all_ = list(self.IH.defines.items()) + \
            list(getattr(self.IH, 'sym_defines', []))
        vs = [v for n, v in all_ if same(n, name)]
        if len(vs) != 1:
            raise Bad('%d definitions' % len(vs))
        return vs[0]

    def year(self, v, rec, key):
        if self.high:
            self.cx.check(v == rec[key], key)
            self.cx.cover('full-year')
        else:
            self.cx.check(v == rec[key + '_tiny'], key + ' (tiny)')
            self.cx.cover('tiny')

    def policy(self, name, rules):
        cx = self.cx
        p = self.P.find(cat(self.gp, 'ZonePolicy', sym(name)))
        self.declared(self.PH, cat(self.gp, 'ZonePolicy', sym(name)),
                      'a policy')
        cx.check_eq(word(p[0]), cat(self.lp, 'ZoneRules', sym(name)),
                    'rules of a policy')
        cx.check(And(len(p) == 2, num(p[1]) == len(rules)),
                 'numRules of a policy')
        rs = self.P.find(cat(self.lp, 'ZoneRules', sym(name)))
        cx.check(len(rs) == len(rules), 'number of rules of a policy')
        for raw, r in zip(rs.items, rules):
            v = [num(x) for x in raw.items]
            if len(v) != 9:
                raise Bad('%d fields in a rule' % len(v))
            self.year(v[0], r, 'from_year')
            self.year(v[1], r, 'to_year')
            cx.check(v[2] == r['in_month'], 'in_month')
            cx.check(v[3] == r['on_day_of_week'], 'on_day_of_week')
            cx.check(v[4] == r['on_day_of_month'], 'on_day_of_month')
            code, mod = (v[6], v[5]) if self.high else (v[5], v[6])
            cx.check(time_ok(code, mod, r['at_seconds_truncated'],
                             r['at_time_suffix'], self.high), 'AT code')
            want = r['delta_seconds_truncated']
            cx.check(v[7] * 60 == want if self.high else
                     (v[7] - 4) * 900 == want, 'SAVE code')
            cx.check(v[8] == r['letter_index'], 'letter index')
            cx.cover(self.lang + '-rule')
            rule_covers(cx, r)

    def zone(self, name, eras):
        cx = self.cx
        z = self.I.find(cat(self.gp, 'Zone', sym(name)))
        self.declared(self.IH, cat(self.gp, 'Zone', sym(name)), 'a zone')
        es = self.I.find(cat(self.lp, 'ZoneEra', sym(name)))
        cx.check_eq(word(z[2]), self.gp + 'ZoneContext', 'context of a zone')
        cx.check(And(len(z) == 6, num(z[3]) == len(eras)),
                 'numEras of a zone')
        cx.check_eq(word(z[4]), cat(self.lp, 'ZoneEra', sym(name)),
                    'eras of a zone')
        cx.check(len(es) == len(eras), 'number of eras of a zone')
        for raw, e in zip(es.items, eras):
            n = 10 if self.high else 9
            if len(raw) != n:
                raise Bad('%d fields in an era' % len(raw))
            pol = e['policy_name']
            if pol is None:
                cx.check_eq(word(raw[0]), self.nil, 'no policy')
            else:
                cx.check_eq(word(raw[0]), cat(self.gp, 'ZonePolicy',
                                              sym(pol)), 'policy of an era')
            cx.check_eq(raw[1].text(), e['format_short'], 'format')
            v = [num(x) for x in raw.items[2:]]
            off = e['offset_seconds_truncated']
            delta = e['era_delta_seconds_truncated']
            if self.high:
                cx.check(v[0] * 15 + v[1] == off, 'offset code and remainder')
                cx.check(between(v[1], 0, 14), 'offset remainder')
                cx.check(v[2] * 60 == delta, 'delta minutes')
                v = v[3:]
            else:
                cx.check(v[0] * 900 + v[1] // 16 * 60 == off,
                         'offset code and minute')
                cx.check((v[1] % 16 - 4) * 900 == delta, 'delta code')
                v = v[2:]
            self.year(v[0], e, 'until_year')
            cx.check(v[1] == e['until_month'], 'until_month')
            cx.check(v[2] == e['until_day'], 'until_day')
            cx.check(time_ok(v[3], v[4], e['until_seconds_truncated'],
                             e['until_time_suffix'], self.high),
                     'UNTIL code')
            cx.cover(self.lang + '-era')
            era_covers(cx, e)

    def context(self, j):
        cx = self.cx
        c = self.I.get(self.gp + 'ZoneContext')
        nums = ['start_year', 'until_year', 'start_year_accurate',
                'until_year_accurate', 'tiny_base_year', 'max_buf_size']
        if self.lang == 'c':
            nums.remove('tiny_base_year')
        if len(c) != len(nums) + 5:
            raise Bad('%d fields in the context' % len(c))
        for v, k in zip(c.items, nums):
            want = 2100 if k == 'tiny_base_year' else j[k]
            cx.check(num(v) == want, k)
        k = len(nums)
        ver = c[k]
        if not isinstance(ver, Str):
            ver = self.I.get(word(ver))
        cx.check_eq(ver.text(), '2024a', 'version')
        fr = self.I.get(word(c[k + 3]))
        le = self.I.get(word(c[k + 4]))
        cx.check_eq(word(c[k + 3]), self.lp + 'Fragments', 'fragments')
        cx.check_eq(word(c[k + 4]), self.lp + 'Letters', 'letters')
        cx.check(num(c[k + 1]) == len(fr), 'numFragments')
        cx.check(num(c[k + 2]) == len(le), 'numLetters')
        cx.check(len(fr) == len(j['fragments_map']) + 1,
                 'number of fragments')
        cx.check(len(le) == len(j['letters_map']), 'number of letters')
        for l, i in j['letters_map'].items():
            v = le[index(i)]
            if not isinstance(v, Str):
                v = self.I.get(word(v))
            cx.check_eq(v.text(), l, 'a letter')
        cx.cover('two-letters', len(le) > 2)
        pre = self.gp + 'ZoneBufSize'
        for z, bs in j['buf_sizes'].items():
            v = self.IH.find(cat(pre, sym(z))) if self.lang != 'c' else \
                self.define(cat(pre, sym(z)))
            cx.check(num(v) == bs[0], 'buffer size of a zone')
            cx.cover('buf-size')
        cx.cover(self.lang + '-context')


class Py:
    lang = 'python'

    def __init__(self, cx, res, lang, scope):
        self.cx = cx
        self.P = File(res.files['zone_policies.py'], 'py')
        self.I = File(res.files['zone_infos.py'], 'py')

    def policy(self, name, rules):
        cx = self.cx
        p = self.P.find(cat('ZONE_POLICY_', sym(name)))
        cx.check_eq(p.get('name').text(), name, 'name of a policy')
        cx.check_eq(word(p.get('rules')), cat('ZONE_RULES_', sym(name)),
                    'rules of a policy')
        rs = self.P.find(cat('ZONE_RULES_', sym(name)))
        cx.check(len(rs) == len(rules), 'number of rules of a policy')
        for raw, r in zip(rs.items, rules):
            cx.check(len(raw) == 9, 'number of fields of a rule')
            for k in ('from_year', 'to_year', 'in_month', 'on_day_of_week',
                      'on_day_of_month'):
                cx.check(num(raw.get(k)) == r[k], k)
            for k in ('at_seconds', 'delta_seconds'):
                cx.check(num(raw.get(k)) == r[k + '_truncated'], k)
            for k in ('at_time_suffix', 'letter'):
                cx.check_eq(raw.get(k).text(), r[k], k)
            cx.cover('python-rule')
            rule_covers(cx, r)

    def zone(self, name, eras):
        cx = self.cx
        z = self.I.find(cat('ZONE_INFO_', sym(name)))
        cx.check_eq(z.get('name').text(), name, 'name of a zone')
        cx.check_eq(word(z.get('eras')), cat('ZONE_ERAS_', sym(name)),
                    'eras of a zone')
        es = self.I.find(cat('ZONE_ERAS_', sym(name)))
        cx.check(len(es) == len(eras), 'number of eras of a zone')
        for raw, e in zip(es.items, eras):
            cx.check(len(raw) == 9, 'number of fields of an era')
            pol = e['policy_name']
            cx.check_eq(word(raw.get('zone_policy')), 'None' if pol is None
                        else cat('ZONE_POLICY_', sym(pol)),
                        'policy of an era')
            for k in ('until_year', 'until_month', 'until_day'):
                cx.check(num(raw.get(k)) == e[k], k)
            for k in ('offset_seconds', 'era_delta_seconds',
                      'until_seconds'):
                cx.check(num(raw.get(k)) == e[k + '_truncated'], k)
            for k in ('format', 'until_time_suffix'):
                cx.check_eq(raw.get(k).text(), e[k], k)
            cx.cover('python-era')
            era_covers(cx, e)

    def context(self, j):
        cx = self.cx
        for k in ('start_year', 'until_year', 'start_year_accurate',
                  'until_year_accurate'):
            cx.check(num(self.I.get(k.upper())) == j[k], k)
        cx.check_eq(self.I.get('TZDB_VERSION').text(), '2024a', 'version')
        cx.cover('python-context')


def same(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else bool(r)


def sym(s):
    return s.replace('/', '_')


def rule_covers(cx, r):
    cx.cover('anchor', r['from_year'] == -32767)
    cx.cover('at-suffix', Not(eq(r['at_time_suffix'], 'w')))
    cx.cover('weekday', r['on_day_of_week'] != 0)
    cx.cover('truncated', r['at_seconds'] != r['at_seconds_truncated'])


def era_covers(cx, e):
    cx.cover('policy-none' if e['policy_name'] is None else 'policy-set')
    cx.cover('negative-offset', e['offset_seconds_truncated'] < 0)
    cx.cover('fixed-delta', e['era_delta_seconds_truncated'] != 0)
    cx.cover('until-suffix', Not(eq(e['until_time_suffix'], 'w')))


def verify(cx, res, lang, scope):
    try:
        v = (Py if lang == 'python' else Cc)(cx, res, lang, scope)
        j = res.json
        for p in list(j['policies_map'].keys()):
            v.policy(p, j['policies_map'][p]['rules'])
        for z in list(j['zones_map'].keys()):
            v.zone(z, j['zones_map'][z]['eras'])
        v.context(j)
    except Bad as e:
        cx.fail('generated %s source: %s' % (lang, e))


def run(cx, lang, scope, L, zp=None, start=2000, end=2030, **kw):
    kw.setdefault('skip_bufestimator', lang == 'python')
    res = run_main(cx, L, default_opts(scope, start, end, languages=lang,
                                       actions='json,zonedb', **kw), zp=zp)
    if res.exc is not None:
        return res
    verify(cx, res, lang, scope)
    return res


# -- jobs -------------------------------------------------------------------

def upper(cx, n, lo=65, hi=90):
    c = cx.int(n, lo, hi)
    return chr(c) if isinstance(c, int) else SymStr.char(c)


def clock(cx, n, r, hi=23, neg=False):
    """A time; the fixed remainder r keeps the notes the same."""
    h = cx.int(n + 'h', 10, hi)
    m = cx.int(n + 'm', 0, 1) * 30 + r
    return hms(neg, h, m)


def rule_of(cx, n, p, k, save, scope, on='n', suffix=True, lax=False,
            L=()):
    high = scope == 'complete'
    f = cx.int(n + 'f', 1995, 2004)
    t = cx.int(n + 't', 2005, 2014)
    m = cx.int(n + 'i', 3, 12) if k < 0 else k
    if k < 0:
        m = m.conc() if not isinstance(m, int) else m
    d = {'n': cx.int(n + 'd', 10, 28), 'last': 'lastSun', 'ge': 'Mon>=8',
         'le': 'Sat<=20'}[on]
    if on != 'n':
        f, t = 1995 + len(n), 2004 + k % 3
    sx = cx.choice(n + 's', ['', 's', 'u']) if suffix else ''
    at = cat(clock(cx, n + 'a', 19), sx)
    if lax:
        at = cat(hms(False, cx.int(n + 'Ah', 10, 23),
                     cx.int(n + 'Am', 0, 59), cx.int(n + 'As', 0, 59)), sx)
    if save:
        sv = cx.int(n + 'v', 0, 7) * 15
        save = hms(False, 1, 30) if not save else hms(False, sv // 60,
                                                      sv % 60)
        if lax:
            save = hms(False, 1, cx.int(n + 'vm', 10, 44),
                       cx.int(n + 'vs', 10, 59))
            cx.cover('truncated-save')
    else:
        save = '0'
    return rule_line(p, num(f), num(t), m, d, at, save, upper(cx, n + 'l', 70 + 3 * len(L or ()),
                                                     72 + 3 * len(L or ())))


def era_of(cx, n, rules, form, y0, scope, neg=False, lax=False):
    """form: UNTIL fields ('' for the last era)."""
    if lax:
        off = hms(neg, cx.int(n + 'oh', 10, 12), cx.int(n + 'om', 0, 59),
                  cx.int(n + 'os', 0, 59))
    else:
        off = clock(cx, n + 'o', 7, 12, neg)
    if rules == 'fixed':
        v = cx.int(n + 'r', 1, 7) * 15
        rules = hms(False, v // 60, v % 60)
        if lax:
            rules = hms(False, 1, cx.int(n + 'rm', 10, 44),
                        cx.int(n + 'rs', 10, 59))
            cx.cover('truncated-delta')
    f = cat('%s' if rules in ('P', 'Q') else '+', upper(cx, n + 'f', 70 + y0 % 10,
                                                           70 + y0 % 10 + 2))
    e = [off, rules, f]
    if form:
        u = [cx.int(n + 'y', y0, y0 + 4)]
        if 'm' in form:
            u.append(cx.choice(n + 'u', [2, 11]))
        if 'd' in form:
            u.append(cx.int(n + 'd', 10, 28))
        if 't' in form:
            u.append(cat(clock(cx, n + 't', 11),
                         cx.choice(n + 'x', ['', 's', 'u'])
                         if 's' in form else ''))
        e.append(until(*u))
    return tuple(e)


FIX = [rule_line('Q', 1990, 'max', 4, '9', '3:00', '1:00', 'QQ'),
       rule_line('Q', 1991, 'max', 11, '7', '4:00', '0', '-')]


def rules_job(cx, lang, scope, ons, saves, lax):
    L = []
    for i, (on, sv) in enumerate(zip(ons, saves)):
        L.append(rule_of(cx, 'r%d' % i, 'P', (3, 8, 5)[i], sv, scope, on,
                         i == 0, lax and i == 0, L))
    # a standard rule that is not before the others
    L.append(rule_line('P', 1990, 2010, 12, '3', '1:00', '0', 'T'))
    L += FIX
    L += zone_lines('Z/A', [('1:00', 'P', 'A%s')]) + \
        zone_lines('Z/B', [('2:00', 'Q', 'B%s', until(2005)),
                           ('3:00', 'P', 'C%s')])
    run(cx, lang, scope, L, nostrict=lax)


def eras_job(cx, lang, scope, specs, lax):
    """specs: (rules, until form, negative) per era."""
    es = [era_of(cx, 'e%d' % i, r, f, 2003 + 7 * i, scope, ng, lax)
          for i, (r, f, ng) in enumerate(specs)]
    L = [rule_line('P', 1990, 2004, 3, '8', '2:00', '1:00', 'D'),
         rule_line('P', 1990, 2004, 10, '8', '2:00', '0', 'S')] + FIX
    L += zone_lines('Z/A', es) + zone_lines('Z/B', [('5:00', 'Q', 'B%s')])
    L += zone_lines('Z/C', [('6:00', 'P', 'B%s')])
    run(cx, lang, scope, L, nostrict=lax)


def ends_job(cx, lang, scope, k):
    """Times at the ends of their range, offsets of any size, long texts."""
    sx = cx.choice('x', ['', 's', 'u'])
    m = cx.int('m', 10, 59) if k else 7
    h = (lambda a: hms(False, cx.int(a, 0, 9), m),
         lambda a: hms(False, 24, 0), lambda a: hms(False, 25, 0),
         lambda a: hms(False, 24, m))[k]
    n = cx.choice('n', [3, 13]) if k == 1 else 14
    fm = 'QwErTyUiOpAsDf'[:n]
    z = hms(k % 2, cx.int('oh', 13, 15), 15 * cx.int('oq', 1, 3))
    L = [rule_line('P', 1990, 2004, 3, '8', cat(h('a'), sx), '1:00', 'LONGER'),
         rule_line('P', 1990, 2004, 10, '8', '2:00', '0', '-')] + FIX
    L += zone_lines('Z/A', [
        (z, 'P', fm + '%s', until(2005, 10, 31, cat(h('u'), sx))),
        ('-9:30', '-', fm + '/' + fm, until(2007, 12, 31, h('w') if k else '3:00')),
        ('1:00', 'Q', '%z')])
    L += zone_lines('Z/B', [('2:00', 'Q', 'B%s')])
    L += zone_lines('Z/C', [('2:00', 'P', 'B%s')])
    cx.cover('late', k in (1, 2, 3))
    cx.cover('long-format', n > 12)
    run(cx, lang, scope, L)


def names_job(cx, lang, scope):
    ps = [upper(cx, 'p%d' % i) for i in range(2)]
    zs = [cat('Z/', upper(cx, 'z%d' % i)) for i in range(3)]
    for xs in (ps, zs):
        cx.assume(And(*[Not(eq(a, b)) for i, a in enumerate(xs)
                        for b in xs[:i]]))
    L = []
    for i, p in enumerate(ps):
        L += [rule_line(p, 1990 + i, 2005, 3 + i, 8, '2:00', '1:00', 'D'),
              rule_line(p, 1990, 2004 + i, 10, 3 + i, '2:00', '0', 'S')]
        if i:
            L.append(rule_line(p, 1990, 2004, 6, 5, '2:00', '0:30', 'H'))
    L += zone_lines(zs[0], [('1:00', ps[1], 'A%s')])
    L += zone_lines(zs[1], [('2:00', ps[0], 'B%s', until(2006)),
                            ('3:00', '-', 'C')])
    L += zone_lines(zs[2], [('4:00', '-', 'D', until(2007)),
                            ('5:00', ps[0], 'E%s', until(2010)),
                            ('6:00', ps[1], 'F%s')])
    r = run(cx, lang, scope, L)
    if r.exc is None:
        cx.cover('order-policies', codes(ps[0])[0] > codes(ps[1])[0])
        cx.cover('order-zones', codes(zs[0])[2] > codes(zs[1])[2])


def context_job(cx, lang, scope, letters, compress, sized):
    lo, hi = (1980, 1999) if scope == 'basic' else (1974, 1999)
    start = cx.int('start', hi - 1, hi)
    end = cx.int('until', 2005, 2006)
    f = cx.int('f', hi - 3, hi)
    t = cx.int('t', 2004, 2008)
    L = [rule_line('P', f, t, 3, '8', '2:00', '1:00', 'D'),
         rule_line('P', hi - 2, 2040, 10, '8', '2:00', '0', 'S')] \
        if scope != 'basic' else \
        [rule_line('P', 1985, 2010, 3, '8', '2:00', '1:00', 'D'),
         rule_line('P', 1985, 2010, 10, '8', '2:00', '0', 'S')]
    for i in range(letters):
        L.append(rule_line('P', 1986, 1987, 4 + i, '8', '2:00', '0',
                           'L%d' % i))
    L += zone_lines('Europe/Aaa', [('1:00', 'P', 'A%s')])
    L += zone_lines('Europe/Bbb', [('1:00', '-', 'A')])
    L += zone_lines('Europe/Ccc', [('1:00', '-', 'A')])
    L += zone_lines('Europe/Ddd', [('1:00', '-', 'A')])
    zp = None
    if sized:
        sizes = {n: cx.int('b' + n[-1], *r) for n, r in (
            ('Europe/Aaa', (5, 8)), ('Europe/Bbb', (1, 4)))}

        class ZP(env.DefaultZP):
            def get_buffer_sizes(self):
                v = sizes.get(str(self.zone_info['name']), 2)
                return types.SimpleNamespace(active_size=v, buffer_size=v)
        zp = ZP
    r = run(cx, lang, scope, L, zp, start, end, nocompress=not compress)
    if r.exc is None:
        a = r.json['start_year_accurate']
        cx.cover('accurate-unlimited', a == -32767)
        cx.cover('accurate-limited', a == start)


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, **kw):
        out.append(Job(name, fn, **kw))
    for lang in ('python', 'arduino', 'c'):
        for scope in ('extended', 'complete'):
            sh = [(('n',), (1,), False), (('n',), (0,), True),
                  (('n',), (1,), True),
                  (('last',), (1,), False), (('ge', 'n'), (1, 0), False)]
            if not q:
                sh += [(('n', 'n'), (1, 1), False), (('le',), (0,), False),
                       (('n', 'n'), (0, 1), True),
                       (('ge', 'le', 'n'), (1, 0, 1), False)]
            for ons, saves, lax in sh:
                add('rules-%s-%s-%s-%s%s' % (
                    lang, scope, '.'.join(ons), ''.join(map(str, saves)),
                    '-lax' if lax else ''), rules_job, lang=lang,
                    scope=scope, ons=ons, saves=saves, lax=lax)
            es = [((('-', 'y', 0), ('P', '', 1)), False),
                  ((('fixed', 'ymdts', 1), ('-', '', 0)), False),
                  ((('Q', 'ym', 0), ('-', '', 0)), True),
                  ((('fixed', 'y', 0), ('-', '', 1)), True)]
            if not q:
                es += [((('P', 'ymd', 1), ('fixed', 'ymdt', 0),
                         ('-', '', 1)), False),
                       ((('fixed', 'y', 1), ('P', 'ymdts', 0),
                         ('Q', '', 1)), False),
                       ((('-', 'ymdts', 1), ('fixed', '', 0)), False)]
            for k in range(4):
                add('ends-%s-%s-%d' % (lang, scope, k), ends_job, lang=lang,
                    scope=scope, k=k)
            for specs, lax in es:
                add('eras-%s-%s-%s%s' % (
                    lang, scope, '.'.join('%s+%s+%d' % s for s in specs),
                    '-lax' if lax else ''), eras_job, lang=lang, scope=scope,
                    specs=specs, lax=lax)
        for scope in ('basic', 'extended', 'complete'):
            if scope != 'extended' or not q:
                add('names-%s-%s' % (lang, scope), names_job, lang=lang,
                    scope=scope)
            for k in ((0, 3) if q else (0, 1, 4, 6)):
                if scope == 'basic' and k:
                    continue
                for comp in (True, False):
                    add('context-%s-%s-%d-%d' % (lang, scope, k, comp),
                        context_job, lang=lang, scope=scope, letters=k,
                        compress=comp, sized=lang != 'python' and not k)
    return out
