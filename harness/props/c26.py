"""C26: record counts and memory totals add up."""
import re

from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File

BOUNDS = ('two or three zones of 1..4 eras, two links, two or three policies '
          'of 1..3 rules; symbolic window, rule years and UNTIL years (which '
          'decide what is kept), symbolic letters, formats and name '
          'characters (which decide what is shared), include lists with every '
          'subset, name compression on and off; three scopes, all languages')
OUTSIDE = ('counts of notable entries; the Go "null policy" record that leads '
           'the policy table is not a policy')
COVERS = ['python', 'arduino', 'c', 'go', 'json', 'zonelist', 'supported',
          'unsupported', 'records', 'memory8', 'memory32', 'go-memory',
          'per-policy', 'per-zone', 'registry', 'removed', 'fragments',
          'shared-letter', 'era-dropped', 'rule-dropped', 'no-policy',
          'array-size']
LANGS = ['python', 'arduino', 'c', 'go']
# context, rule, policy, era, info, pointer
SIZEOF = {
    ('low', 8): (16, 9, 3, 11, 13, 2), ('low', 32): (24, 12, 8, 16, 24, 4),
    ('high', 8): (16, 12, 3, 15, 13, 2), ('high', 32): (24, 12, 8, 20, 24, 4),
}


class Want:
    """Counts of what is really there."""

    def __init__(self, res):
        J = res.json
        self.J = J
        self.zones = len(J['zones_map'])
        self.links = len(J['links_map'])
        self.policies = len(J['policies_map'])
        self.era_list = [len(J['zones_map'][z]['eras'])
                         for z in J['zones_map']]
        self.rule_list = [len(J['policies_map'][p]['rules'])
                          for p in J['policies_map']]
        self.eras = sum(self.era_list)
        self.rules = sum(self.rule_list)
        self.infos = self.zones + self.links
        self.rz = len(J['removed_zones'])
        self.rl = len(J['removed_links'])
        self.rp = len(J['removed_policies'])


def same(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else bool(r)


def plen(s):
    return len(s)


def distinct(xs):
    out = []
    for x in xs:
        if not any(same(x, y) for y in out):
            out.append(x)
    return out


def mem_ar(w, high, bits, compress):
    """Memory summary of the C++ and C databases."""
    ctx, rule, pol, era, info, ptr = SIZEOF['high' if high else 'low', bits]
    J = w.J
    names = list(J['zones_map'].keys()) + list(J['links_map'].keys())
    orig = sum(plen(n) + 1 for n in names)
    cn = J['compressed_names'] or {}
    comp = sum(plen(cn[n]) + 1 for n in names) if compress else orig
    letters = distinct([''] + [r['letter'] for p in J['policies_map']
                               for r in J['policies_map'][p]['rules']])
    formats = distinct([e['format_short'] for z in J['zones_map']
                        for e in J['zones_map'][z]['eras']])
    m = dict(context=ctx, rules=w.rules * rule, policies=w.policies * pol,
             eras=w.eras * era, zones=w.zones * info, links=w.links * info,
             registry=w.infos * ptr, names=comp, names_original=orig,
             fragments=sum(plen(f) + 1 + ptr for f in J['fragments_map']),
             letters=sum(plen(x) + 1 + ptr for x in letters),
             formats=sum(plen(x) + 1 for x in formats))
    m['total'] = sum(v for k, v in m.items() if k != 'names_original')
    return m


def mem_go(w):
    J = w.J
    letters = distinct([''] + [r['letter'] for p in J['policies_map']
                               for r in J['policies_map'][p]['rules']]) + ['~']
    formats = distinct([''] + [e['format'].replace('%s', '%')
                               for z in J['zones_map']
                               for e in J['zones_map'][z]['eras']]) + ['~']
    names = list(J['zones_map'].keys()) + list(J['links_map'].keys()) + ['~']
    m = dict(rules=12 * w.rules, policies=4 * w.policies, eras=14 * w.eras,
             zones=12 * w.zones, links=12 * w.links, registry=0,
             fragments=0,
             names=sum(plen(x) + 2 for x in names),
             formats=sum(plen(x) + 2 for x in formats),
             letters=sum(plen(x) + 1 for x in letters))
    m['total'] = sum(m.values())
    return m


def check_map(cx, got, want, what):
    if got is None:
        return
    for k in got:
        if k in want:
            cx.check(got[k] == want[k], '%s memory: %s' % (what, k))
    parts = [got[k] for k in got if k not in ('total', 'names_original')]
    if 'total' in got:
        cx.check(got['total'] == sum(parts), what + ' memory: total')


def concrete(x):
    return x if isinstance(x, str) else None


def comment_lines(text):
    """(section, line) of the comments that are plain text."""
    sec = None
    for raw in text.split('\n'):
        x = concrete(raw)
        if x is None:
            yield None, ''
            continue
        m = re.match(r'\s*(?://|#)(.*)$', x)
        if not m:
            sec = None
            yield None, x
            continue
        t = m.group(1)
        s = t.strip()
        if not s:
            sec = None
            continue
        if s in ('Records:', 'Memory:', 'Memory (8-bits):',
                 'Memory (32-bits):'):
            sec = s[:-1]
            continue
        yield sec, s


def check_text(cx, fn, text, w, mems):
    """Every number of records in the text of a file."""
    rules, eras = [], []
    seen_mem = {}
    for sec, s in comment_lines(text):
        m = re.match(r'([A-Za-z][A-Za-z ]*?): (\d+)(?: \((.*)\))?$', s)
        if not m:
            continue
        k, n, tail = m.group(1), int(m.group(2)), m.group(3)
        low = k.lower().replace('unsuported', 'unsupported')
        where = '%s: %s' % (fn, k)
        if sec == 'Records':
            want = dict(infos=w.infos, eras=w.eras, policies=w.policies,
                        rules=w.rules).get(low)
            if want is not None:
                cx.check(n == want, where)
                cx.cover('records')
            continue
        if sec and sec.startswith('Memory'):
            seen_mem.setdefault(sec, {})[low] = n
            mm = mems.get(sec)
            if mm is not None and low in mm:
                cx.check(n == mm[low], '%s: %s %s' % (fn, sec, k))
            t = re.match(r'original: (\d+)$', tail or '')
            if t and mm is not None and 'names_original' in mm:
                cx.check(int(t.group(1)) == mm['names_original'],
                         where + ' (original)')
            continue
        t = re.match(r'(\d+) zones, (\d+) links$', tail or '')
        if low in ('supported zones', 'total') and t:
            cx.check((n, int(t.group(1)), int(t.group(2))) ==
                     (w.infos, w.zones, w.links), where)
            cx.cover('supported')
        elif low == 'unsupported zones' and t:
            cx.check((n, int(t.group(1)), int(t.group(2))) ==
                     (w.rz + w.rl, w.rz, w.rl), where)
            cx.cover('unsupported')
        elif low in ('supported zones', 'zones', 'numzones'):
            cx.check(n == w.zones, where)
        elif low in ('supported links', 'links'):
            cx.check(n == w.links, where)
        elif low == 'supported zones and links':
            cx.check(n == w.infos, where)
        elif low in ('supported policies', 'supported zone policies',
                     'policies'):
            cx.check(n == w.policies, where)
        elif low == 'unsupported zones':
            cx.check(n == w.rz, where)
        elif low == 'unsupported links':
            cx.check(n == w.rl, where)
        elif low in ('unsupported policies', 'unsupported zone policies'):
            cx.check(n == w.rp, where)
        elif low in ('numeras', 'supported eras'):
            cx.check(n == w.eras, where)
        elif low == 'numrules':
            cx.check(n == w.rules, where)
        elif low in ('rules', 'rule count', 'rulecount'):
            rules.append(n)
        elif low in ('eras', 'zone eras', 'era count', 'eracount'):
            eras.append(n)
    each(cx, fn, 'rules', rules, w.rule_list)
    each(cx, fn, 'eras', eras, w.era_list)
    for sec, mm in seen_mem.items():
        if 'total' in mm:
            cx.check(mm['total'] == sum(v for k, v in mm.items()
                                        if k != 'total'),
                     '%s: %s does not add up' % (fn, sec))
        cx.cover({'Memory (8-bits)': 'memory8', 'Memory': 'go-memory',
                  'Memory (32-bits)': 'memory32'}[sec])
    arrays(cx, fn, text, w)


def each(cx, fn, what, got, lens):
    """Counts per policy or zone, perhaps with the total of the file."""
    if len(got) == len(lens) + 1:
        want = lens + [sum(lens)]
    elif len(got) == len(lens):
        want = lens
    elif len(got) == 1:
        want = [sum(lens)]
    else:
        return
    cx.check(sorted(got) == sorted(want), '%s: number of %s' % (fn, what))
    if len(lens) > 1:
        cx.cover('per-policy' if what == 'rules' else 'per-zone')


def arrays(cx, fn, text, w):
    """Registry sizes and the explicit sizes of emitted arrays."""
    for raw in text.split('\n'):
        x = concrete(raw)
        if x is None or 'Registry' not in x:
            continue
        m = re.search(r'Zone(AndLink)?Registry(?:Size(?: =)? (\d+)|'
                      r'\[(\d+)\])', x)
        if m:
            n = int(m.group(2) or m.group(3))
            cx.check(n == (w.infos if m.group(1) else w.zones),
                     '%s: size of the registry' % fn)
            cx.cover('registry')


def check_entries(cx, res, lang, w):
    """The records that are really in the generated sources."""
    ext = {'python': 'py', 'arduino': 'cpp', 'c': 'c'}.get(lang)
    if ext is None:
        return
    P = File(res.files['zone_policies.' + ext], ext)
    I = File(res.files['zone_infos.' + ext], ext)
    R = File(res.files['zone_registry.' + ext], ext)
    pre = {'python': ('ZONE_RULES_', 'ZONE_POLICY_', 'ZONE_ERAS_',
                      'ZONE_INFO_'),
           'arduino': ('kZoneRules', 'kZonePolicy', 'kZoneEra', 'kZone'),
           'c': ('kAtcZoneRules', 'kzonedbZonePolicy', 'kAtcZoneEra',
                 'kzonedbZone')}[lang]
    rules = sorted(len(v) for n, v in P.pairs if starts(n, pre[0]))
    eras = sorted(len(v) for n, v in I.pairs if starts(n, pre[2]))
    cx.check(rules == sorted(w.rule_list), 'emitted rules')
    cx.check(eras == sorted(w.era_list), 'emitted eras')
    if lang == 'python':
        cx.check(len(R.get('ZONE_REGISTRY').items) == w.zones,
                 'emitted registry')
        cx.check(len(R.get('ZONE_AND_LINK_REGISTRY').items) == w.infos,
                 'emitted registry of zones and links')
    else:
        q = 'k' if lang == 'arduino' else 'kzonedb'
        for nm, n in (('ZoneRegistry', w.zones),
                      ('ZoneAndLinkRegistry', w.infos)):
            cx.check(len(R.get(q + nm).items) == n, 'emitted ' + nm)
            s = R.sizes.get(q + nm)
            if isinstance(s, str) and s.isdigit():
                cx.check(int(s) == n, 'declared size of ' + nm)
                cx.cover('array-size')


def starts(n, p):
    r = n.startswith(p)
    return r if isinstance(r, bool) else bool(r)


def check(cx, res, lang, scope, compress=True):
    if res.exc is not None or res.json is None:
        return None
    w = Want(res)
    J = w.J
    for k, n in (('num_zones', w.zones), ('num_links', w.links),
                 ('num_policies', w.policies), ('num_eras', w.eras),
                 ('num_rules', w.rules)):
        cx.check(J[k] == n, k)
    cx.check(len(J['zone_ids']) == w.zones, 'number of zone ids')
    cx.check(len(J['link_ids']) == w.links, 'number of link ids')
    cx.cover('json')
    high = scope == 'complete'
    mems = {}
    if lang in ('arduino', 'c'):
        mems['Memory (8-bits)'] = mem_ar(w, high, 8, compress)
        mems['Memory (32-bits)'] = mem_ar(w, high, 32, compress)
        check_map(cx, J['memory_map8'], mems['Memory (8-bits)'], '8-bit')
        check_map(cx, J['memory_map32'], mems['Memory (32-bits)'], '32-bit')
        cx.cover('fragments', len(J['fragments_map']) > 0)
    elif lang == 'go':
        mems['Memory'] = mem_go(w)
        check_map(cx, J['go_memory_map'], mems['Memory'], 'Go')
    for fn in sorted(res.files):
        check_text(cx, fn, res.files[fn], w, mems)
    if 'zones.txt' in res.files:
        n = 0
        for x in res.files['zones.txt'].split('\n'):
            if len(x) and not starts(x, '#'):
                n += 1
        cx.check(n == w.zones, 'zonelist entries')
        cx.cover('zonelist')
    check_entries(cx, res, lang, w)
    cx.cover(lang)
    cx.cover('removed', w.rz > 0 and w.rp > 0)
    cx.cover('no-policy', w.policies == 0)
    return w


def go_run(cx, L, lang, scope, start=2000, until=2030, compress=True,
           include=None, strict=False):
    return run_main(cx, L, default_opts(
        scope, start, until, strict=strict, nostrict=not strict,
        actions='zonedb,json,zonelist', languages=lang,
        compress=compress, nocompress=not compress,
        skip_bufestimator=lang not in ('arduino', 'c')), include=include)


def window(cx, lang, scope, what, full=False):
    """What is kept depends on the years."""
    if lang in ('arduino', 'c') and not full:
        # the estimator looks at every year
        a = cx.int('start', 1994, 2002)
        b = a + 5
        lo, hi = 1993, 2008
    else:
        a = cx.int('start', 1985, 2010)
        b = a + cx.int('span', 0, 30)
        lo, hi = 1988, 2020
    if what == 'eras':
        u = cx.int('u', lo, hi)
        v = cx.int('v', lo, hi)
        cx.assume(u < v)
        L = rules('P', 1970, 2040)
        L += zone_lines('Z/B', [('1:00', '-', 'A', until(u)),
                                ('2:00', 'P', 'B%s', until(v)),
                                ('3:00', 'Q', 'C%s')])
        L += zone_lines('Z/A', [('1:00', '-', 'A')])
        L += rules('Q', 1970, 2040)
        L += [link_line('Z/B', 'L/A'), link_line('Z/B', 'L/B')]
        k = 3
    else:
        f = cx.int('f', lo, hi)
        L = [rule_line('P', 1980, 2040, 3, '8', '2:00', '1:00', 'D'),
             rule_line('P', 1980, f, 10, '8', '2:00', '0', 'S'),
             rule_line('P', f + 1, 2040, 11, '8', '2:00', '0', 'T')]
        L += rules('Q', 1990, 1991)
        L += zone_lines('Z/B', [('1:00', 'P', 'A%s')])
        L += zone_lines('Z/A', [('1:00', 'Q', 'A%s')])
        L += [link_line('Z/B', 'L/A')]
        k = 6
    res = go_run(cx, L, lang, scope, a, b)
    w = check(cx, res, lang, scope)
    if w is not None:
        if what == 'eras':
            cx.cover('era-dropped', w.eras < k + 1)
        else:
            cx.cover('rule-dropped', w.rules < 7)


def rules(p, f=1998, t=2010, letter='D', at='2:00'):
    return [rule_line(p, f, t, 3, '8', at, '1:00', letter),
            rule_line(p, f, t, 10, '8', '2:00', '0', 'S')]


def strings(cx, lang, scope, what, compress=True):
    """What is shared depends on the strings."""
    l1 = fm = None
    letters, formats = ['D', 'E'], ['F%sT', 'G']
    zn, ln = ['Aa/V', 'Bb/Wxyz'], ['L/A', 'L/Bc']
    if what == 'letters':
        letters = [cx.char('l%d' % i, 65, 90) for i in range(2)]
        cx.cover('shared-letter', letters[0] == letters[1])
    elif what == 'formats':
        formats = [cat(cx.char('f0', 65, 90), '%sT'),
                   cat(cx.char('f1', 65, 90), '/XY')]
        if cx.flag('equal'):
            formats[1] = cat(cx.char('f2', 65, 90), '%sT')
    elif what == 'names':
        zn = [cat('Aaaa/', cx.char('n0', 65, 90)),
              cat(cx.char('n1', 65, 66), 'aaa/X')]
        ln = [cat(cx.char('n2', 65, 66), 'aaa/Y'), 'Aaaa/Z2',
              'Aaaa/Yy/Cccc']
        cx.assume(zn[0] != zn[1])
    L = []
    for i, p in enumerate(('P', 'Q')):
        L += rules(p, letter=letters[i])
        L += zone_lines(zn[i], [('1:00', '-', 'F%s' if False else 'LMT',
                                 until(2003)), ('1:00', p, formats[i])])
    L += [link_line(zn[i % 2], n) for i, n in enumerate(ln)]
    check(cx, go_run(cx, L, lang, scope, compress=compress), lang, scope,
          compress)


def subset(cx, lang, scope):
    """Zones and links left out by the include list or removed."""
    names = ['Z/A', 'Z/B', 'Z/C']
    L = rules('P', at='2:00x' if scope == 'basic' else '2:00') + rules('Q')
    L += zone_lines('Z/A', [('1:00', 'P', 'A%s')])
    L += zone_lines('Z/B', [('1:00', 'Q', 'A%s', until(2002)),
                            ('2:00', '-', 'B')])
    L += zone_lines('Z/C', [('1:00', '-', 'C')])
    L += [link_line('Z/A', 'L/A'), link_line('Z/B', 'L/B')]
    inc = [n for n in names + ['L/A', 'L/B'] if cx.flag('i' + n)]
    y = cx.int('y', 1999, 2002)
    res = go_run(cx, L, lang, scope, y, include=inc)
    check(cx, res, lang, scope)


def jobs(tier):
    full = tier == 'thorough'
    out = []
    for lang in LANGS:
        for scope in ('basic', 'extended', 'complete'):
            for what in ('eras', 'rules'):
                if scope == 'basic' and what == 'rules' and not full:
                    continue
                out.append(Job('window-%s-%s-%s' % (what, scope, lang),
                               window, lang=lang, scope=scope, what=what,
                               full=full, budget=300))
            for what in ('letters', 'formats', 'names'):
                out.append(Job('strings-%s-%s-%s' % (what, scope, lang),
                               strings, lang=lang, scope=scope, what=what))
                if lang in ('arduino', 'c') and what == 'names':
                    out.append(Job('plain-%s-%s-%s' % (what, scope, lang),
                                   strings, lang=lang, scope=scope,
                                   what=what, compress=False))
            out.append(Job('subset-%s-%s' % (scope, lang), subset, lang=lang,
                           scope=scope))
    return out
