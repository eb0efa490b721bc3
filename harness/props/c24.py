"""C24: buffer sizes are the maximum over every year that matters."""
import types

from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('windows of 1..6 years with generated records up to 4 years before '
          'or after them; one or two zones with a symbolic buffer size (1..12) '
          'in up to 7 years each and any first terminal year; five and '
          'ten zones with a symbolic size in the last two; every field of '
          'the zone data handed to the processor for two zones, one or two '
          'policies, symbolic years, days, times, offsets and letters')
OUTSIDE = ('the zone processor itself, which is a stub: it answers with any '
           'sizes that no longer change two years after its first terminal '
           'year; windows with more than 9 examined years')
COVERS = ['max-first', 'max-last', 'max-tie', 'too-large', 'ignored',
          'exactly-8', 'terminal-early', 'terminal-never', 'terminal-late',
          'after-terminal', 'gen-before', 'gen-after', 'two-zones',
          'data-rule', 'data-era', 'truncated', 'policy', 'fixed']


class Model:
    """Sizes by zone and year; every zone has a first terminal year."""

    def __init__(self, cx, lo, hi, names, sym_years, maxsize, before=4, still=False):
        self.before = before
        self.still = still
        self.cx, self.lo, self.hi = cx, lo, hi
        self.names, self.maxsize = names, maxsize
        self.sym_years = sym_years
        self.term = {}
        self.cache = {}
        self.asked = {}

    def terminal(self, zone):
        if self.still and zone not in self.term:
            self.term[zone] = self.hi + 1
        if zone not in self.term:
            # hi + 1: never inside
            self.term[zone] = self.cx.forked('T' + zone[-1], self.lo - self.before,
                                             self.hi + 1)
        return self.term[zone]

    def size(self, zone, year):
        y = min(year, self.terminal(zone) + 2)
        y = max(y, self.lo)
        k = (zone, y)
        if k not in self.cache:
            if y in self.sym_years.get(zone, ()):
                self.cache[k] = self.cx.int('s%s%d' % (zone[-1], y), 1,
                                            self.maxsize)
            else:
                self.cache[k] = 2
        return self.cache[k]

    def processor(self):
        model = self
        model.last = {}

        class ZP:
            def __init__(self, zone_info):
                self.zone_info = zone_info
                self.zone = str(zone_info['name'])
                self.year = None

            def init_for_year(self, year):
                if not isinstance(year, int):
                    year = year.conc()
                self.year = year
                model.last[self.zone] = max(
                    year, model.last.get(self.zone, year))

            def get_buffer_sizes(self):
                v = model.size(self.zone, self.year)
                # the other size is a decoy
                return types.SimpleNamespace(active_size=If(
                    v < 8, 8 - v, 0),
                                             buffer_size=v)

            def is_terminal_year(self, year):
                if not isinstance(year, int):
                    year = year.conc()
                return year >= model.terminal(self.zone)
        return ZP


def first_max(cx, sizes):
    """(max, first index of the max) of a list, without forking."""
    best, at = sizes[0], 0
    for i, s in enumerate(sizes[1:], 1):
        more = s > best
        best, at = If(more, s, best), If(more, i, at)
    return best, at


def sizes(cx, start, end, recs, syms, ignore, maxsize, two):
    """recs: (FROM, TO) of the rules of P; syms: offsets from the first
    examined year that have a symbolic size, per zone."""
    L = []
    for i, (f, t) in enumerate(recs):
        L.append(rule_line('P', f, t, 3 + i, '8', '2:00',
                           '1:00' if i % 2 else '0', 'SD'[i % 2]))
    zs = ['Z/' + c for c in 'ABCDEFGHIJ'[:int(two) + 1]]
    L += zone_lines('Z/A', [('1:00', 'P', 'A%s')])
    if two:
        for z in zs[1:]:
            L += zone_lines(z, [('2:00', '-', 'B')])
    # what the database says it contains
    ref = run_main(cx, L, default_opts('complete', start, end), name='ref')
    if not db.generated(ref):
        raise Inconclusive('not generated: %s' % (ref.exc,))
    j = ref.json
    lo = min(j['generated_min_year'], start) - 1
    hi = max(j['generated_max_year'] + 1, end) + 1
    years = list(range(lo, hi))
    syms = list(syms) + [()] * (len(zs) - len(syms))
    if two > 1:
        syms.reverse()
    sy = {z: [lo + o if o >= 0 else hi + o for o in syms[i]]
          for i, z in enumerate(zs)}
    m = Model(cx, lo, hi, zs, sy, maxsize, (4, 2, 0)[min(two, 2)], two > 1)
    res = run_main(cx, L, default_opts(
        'complete', start, end, languages='arduino', skip_bufestimator=False,
        ignore_buf_size_too_large=ignore), zp=m.processor())
    want = {}
    for z in zs:
        want[z] = first_max(cx, [m.size(z, y) for y in years])
    top = want[zs[0]][0]
    for z in zs[1:]:
        top = If(want[z][0] > top, want[z][0], top)
    if not db.generated(res):
        cx.check(And(top > 8, not ignore), 'a buffer size that fits is '
                 'refused')
        cx.cover('too-large', top > 8)
        return
    cx.check(Or(top <= 8, ignore), 'a too large buffer is accepted')
    cx.cover('ignored', top > 8)
    cx.cover('exactly-8', top == 8)
    cx.check(res.json['estimator_min_year'] == lo + 1,
             'first year of the estimation')
    cx.check(res.json['estimator_max_year'] == max(m.last.values()),
             'last year of the estimation')
    bs = res.json['buf_sizes']
    cx.check(len(bs) == len(zs), 'zones with a buffer size')
    cx.check(list(bs.keys()) == zs, 'order of the buffer sizes')
    for z in zs:
        n, y = bs[z][0], bs[z][1]
        cx.check(n == want[z][0], 'buffer size of a zone')
        cx.check(y == lo + want[z][1], 'year of the buffer size of a zone')
        cx.cover('max-first', want[z][1] == 0)
        cx.cover('max-last', want[z][1] == len(years) - 1)
        cx.cover('max-tie', Or(*[And(m.size(z, lo + i) == want[z][0],
                                     want[z][1] < i)
                                 for i in range(len(years))]))
        t = m.terminal(z)
        cx.cover('terminal-early', t < lo)
        cx.cover('terminal-never', t > hi)
        cx.cover('terminal-late', lo <= t < hi - 2)
        cx.cover('after-terminal', And(lo <= t, t + 2 < hi,
                                       want[z][1] == t + 2 - lo))
    cx.check(res.json['max_buf_size'] == top, 'largest buffer size')
    cx.cover('gen-before', j['generated_min_year'] < start)
    cx.cover('gen-after', j['generated_max_year'] + 1 > end)
    cx.cover('two-zones', two)


def data(cx, scope, lax, forms, full):
    """The zone data handed to the processor has the database's values."""
    got = {}

    class ZP(env.DefaultZP):
        def __init__(self, zone_info):
            env.DefaultZP.__init__(self, zone_info)
            got[str(zone_info['name'])] = zone_info

    def up(n, lo=65):
        c = cx.int(n, lo, lo + 2)
        return chr(c) if isinstance(c, int) else SymStr.char(c)

    def clk(n, neg=False, lo=10, hi=23):
        # disjoint ranges keep the order of the notes the same
        h = cx.int(n + 'h', lo, hi)
        k = cx.int(n + 'm', 0, 1) * 30 + 7
        if lax:
            return hms(neg, h, k, cx.int(n + 's', 10, 59))
        return hms(neg, h, k)
    def pick(n, xs):
        return cx.choice(n, xs) if full else xs[forms]
    sx = pick('sx', ['', 's', 'u'])
    sv = cx.choice('sv', [15, 30, 60])
    L = [rule_line('P', num(cx.int('f0', 1999, 2000)),
                   num(cx.int('t0', 2001, 2002)), 3, cx.int('d0', 10, 31),
                   cat(clk('a0'), sx), hms(False, sv // 60, sv % 60),
                   up('l0')),
         rule_line('P', 1998 if forms else num(cx.int('f1', 1997, 1998)),
                   'max', 10,
                   'lastSun' if forms else cx.int('d1', 10, 31), '3:00',
                   '0', up('l1', 70))]
    L += [rule_line('Q', 1999, 2001, 5, '7', '4:00s', '0', '-'),
          rule_line('Q', 1999, 2001, 8, 'Sun>=9', '4:00u', '-0:30'
                    if scope == 'complete' else '0:30', 'QQ')]
    u = until(2001, cx.choice('um', [3, 12]), cx.int('ud', 10, 31),
              cat(clk('ut'), pick('us', ['s', 'u', ''])))
    L += zone_lines('Z/A', [
        (clk('o0', forms == 1, 10, 11), '1:00' if forms == 2 else 'Q' if forms
         else '-', cat('A', up('g0')), u),
        (clk('o1', not forms, 12, 13), 'P', cat('%s', up('g1')))])
    L += zone_lines('Z/B', [('-3:00', 'Q', 'B%s' if forms else '%z')])
    L += zone_lines('Z/C', [('0', '-', 'UTC')])
    res = run_main(cx, L, default_opts(
        scope, 2000, 2002, languages='c', skip_bufestimator=False,
        nostrict=lax), zp=ZP)
    if not db.generated(res):
        raise Inconclusive('not generated: %s' % (res.exc,))
    j = res.json
    cx.check(len(got) == len(j['zones_map']), 'zones handed over')
    for z in list(j['zones_map'].keys()):
        if z not in got:
            cx.fail('a zone is not examined')
            continue
        es, raw = j['zones_map'][z]['eras'], got[z]['eras']
        cx.check(len(es) == len(raw), 'number of eras')
        for e, r in zip(es, raw):
            for k in ('until_year', 'until_month', 'until_day',
                      'until_time_suffix', 'format'):
                cx.check(eq(r[k], e[k]), k)
            for k in ('offset_seconds', 'era_delta_seconds',
                      'until_seconds'):
                cx.check(eq(r[k], e[k + '_truncated']), k)
                cx.cover('truncated', e[k] != e[k + '_truncated'])
            cx.cover('data-era')
            cx.cover('fixed', e['era_delta_seconds'] != 0)
            p = e['policy_name']
            if p is None:
                cx.check(r['zone_policy'] is None, 'no policy')
                continue
            q = r['zone_policy']
            cx.check(eq(q['name'], p), 'policy of an era')
            cx.cover('policy')
            rs = j['policies_map'][p]['rules']
            cx.check(len(rs) == len(q['rules']), 'number of rules')
            for a, b in zip(q['rules'], rs):
                for k in ('from_year', 'to_year', 'in_month',
                          'on_day_of_week', 'on_day_of_month',
                          'at_time_suffix', 'letter'):
                    cx.check(eq(a[k], b[k]), k)
                for k in ('at_seconds', 'delta_seconds'):
                    cx.check(eq(a[k], b[k + '_truncated']), k)
                cx.cover('data-rule')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, start, end, recs, syms, ignore=False, maxsize=12,
            two=False):
        out.append(Job(name, sizes, start=start, end=end, recs=recs,
                       syms=syms, ignore=ignore, maxsize=maxsize, two=two))
    A = [(2000, 2001), (2000, 2002)]
    B = [(1998, 2001), (1997, 1999)]
    C = [(2000, 2005), (2002, 2004)]
    D = [(2000, 'max'), (2001, 2003)]
    for ig in (False, True):
        t = '-ignore' if ig else ''
        add('same' + t, 2000, 2002, A, [(0, 1, -1)], ig)
        add('before' + t, 2000, 2001, B, [(0, 1, -1)], ig)
        add('after' + t, 2000, 2002, C, [(0, 2, -1)], ig)
        add('max' + t, 2000, 2003, D, [(0, -2, -1)], ig)
        add('two' + t, 2000, 2002, A, [(1,), (0, 2)], ig, two=True)
    add('all', 2000, 2002, A, [(0, 1, 2, 3, 4)], False, 9)
    add('long', 2000, 2006, A, [(2, 3, 4)])
    add('two-all', 2000, 2002, A, [(0, 1), (2,)], two=True, maxsize=9)
    add('ten', 2000, 2002, A, [(1, 2), (0,)], two=9)
    add('five', 2000, 2001, C, [(0, 1), (0, 1), (0,)], two=4)
    add('five-ignore', 2000, 2001, C, [(0, 1), (0, 1)], True, two=4)
    if not q:
        add('all6', 2000, 2003, B, [(0, 1, 2, 3, 4, 5)], False, 9)
        add('all7', 2000, 2004, A, [(0, 1, 2, 3, 4, 5, 6)], False, 4)
        add('two6', 2000, 2002, C, [(0, 1, 2), (2, 3, -1)], two=True)
        add('long2', 2000, 2006, C, [(2, 3, 4, -1)])
        add('long3', 1999, 2006, B, [(3, 4, 5, -1, 0)])
    for sc in ('extended', 'complete'):
        for lax in (False, True):
            for f in (0, 1, 2):
                out.append(Job('data-%s-%d%s' % (sc, f, '-lax' if lax else
                                                 ''), data, scope=sc,
                               lax=lax, forms=f, full=not q))
    return out
