"""C10: Go binary tables decode to exactly the database records."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.godb import *
from harness.text import File, Bad, num as value

BOUNDS = ('one zone with 1..3 eras and 1..3 rules whose years, dates, times, '
          'suffixes, offsets, SAVE and letters are symbolic; 2..4 zones and '
          'links with symbolic characters in their names over 1..3 policies; '
          'databases of 300 zones, of a policy of 300 rules, of 200 policies '
          'with 150 letters, and of a zone with 200 eras')
OUTSIDE = 'larger databases; non-ASCII names and letters'
COVERS = ['rule', 'era', 'link', 'null-policy', 'policy-2', 'negative-offset',
          'negative-save', 'suffix', 'high-byte', 'open', 'records',
          'remainder']
O = dict(languages='go', actions='json,zonedb')


def inspect(cx, res):
    """Compares every table with the database."""
    J = res.json
    try:
        d = GoDb(cx, res)
        tables(cx, d, J)
        readable(cx, d, res, J)
    except Bad as e:
        cx.fail('generated Go source: %s' % e)


def tables(cx, d, J):
    Z, L, PO = J['zones_map'], J['links_map'], J['policies_map']
    cx.check(len(d.infos) == len(Z) + len(L), 'number of info records')
    cx.check(len(d.eras) == sum(len(Z[z]['eras']) for z in Z),
             'number of era records')
    cx.check(len(d.rules) == sum(len(PO[p]['rules']) for p in PO),
             'number of rule records')
    cx.check(len(d.policies) == len(PO) + 1, 'number of policy records')
    cx.check(And(d.policies[0][0] == 0, d.policies[0][1] == 0),
             'the null policy has rules')
    for a, b in zip(d.infos, d.infos[1:]):
        cx.check(a[0] < b[0], 'the info table is not sorted by id')
    used_era, used_pol = [], {}
    seen = []
    for k, (zid, ni, ei, ec, ti) in enumerate(d.infos):
        name = pick(cx, d.names, ni, 'name')
        hit = None
        for z in list(Z.keys()) + list(L.keys()):
            if same(name, z):
                hit = z
                break
        if hit is None:
            cx.fail('info %d has an unknown name' % k)
            continue
        seen.append(hit)
        if hit in L:
            cx.check(And(zid == J['link_ids'][hit], ec == 0, ei == 0),
                     'link record')
            t = pick(cx, d.infos, ti, 'target')
            cx.check(And(pick(cx, d.names, t[1], 'name') == L[hit],
                         t[3] > 0), 'link target')
            cx.cover('link')
            continue
        es = Z[hit]['eras']
        cx.check(And(zid == J['zone_ids'][hit], ti == 0), 'zone record')
        if index(ec) != len(es):
            cx.fail('era count of a zone')
            continue
        used_era += range(index(ei), index(ei) + index(ec))
        for raw, e in zip(block(cx, d.eras, ei, ec, 'era'), es):
            cx.check(era_ok(cx, d, raw, e), 'era record')
            cx.check(pick(cx, d.formats, raw[0], 'format')
                     == e['format_short'], 'format of an era')
            cx.cover('era')
            cx.cover('negative-offset', raw[3] < 0)
            cx.cover('open', raw[4] == INF)
            cx.cover('remainder', raw[2] > 0)
            p = e['policy_name']
            pi = index(raw[1])
            if p is None or (isinstance(p, str) and p in ('-', ':', '')):
                cx.check(pi == 0, 'policy of an era without rules')
                cx.cover('null-policy')
                continue
            if not 0 < pi < len(d.policies):
                cx.fail('policy index %d' % pi)
                continue
            if used_pol.setdefault(pi, p) is not p:
                cx.check(used_pol[pi] == p, 'two policies share an index')
                continue
            cx.cover('policy-2', pi == 2)
            rs = PO[p]['rules']
            ri, rc = d.policies[pi]
            if index(rc) != len(rs):
                cx.fail('rule count of a policy')
                continue
            for rr, r in zip(block(cx, d.rules, ri, rc, 'rule'), rs):
                cx.check(rule_ok(cx, d, rr, r), 'rule record')
                cx.cover('rule')
                cx.cover('negative-save', rr[7] < 0)
                cx.cover('suffix', rr[5] >= 16)
    cx.check(len(seen) == len(set(map(id_of, seen))), 'a zone occurs twice')
    cx.check(sorted(used_era) == list(range(len(d.eras))),
             'era blocks overlap or leave gaps')
    cx.cover('high-byte', len(d.infos) > 256 or len(d.rules) > 256)


def id_of(x):
    return x if isinstance(x, str) else id(x)


def same(a, b):
    r = a == b
    return r if isinstance(r, bool) else bool(r)


def readable(cx, d, res, J):
    P = File(res.files['zone_policies_test.go'], 'go')
    I = File(res.files['zone_infos_test.go'], 'go')
    compare(cx, d.rules, P.get('ZoneRuleRecords'), [
        'FromYear', 'ToYear', 'InMonth', 'OnDayOfWeek', 'OnDayOfMonth',
        'AtSecondsModifier', 'AtSecondsCode', 'DeltaMinutes', 'LetterIndex'],
        'ZoneRuleRecords')
    compare(cx, d.policies, P.get('ZonePolicyRecords'),
            ['RuleIndex', 'RuleCount'], 'ZonePolicyRecords')
    compare(cx, d.eras, I.get('ZoneEraRecords'), [
        'FormatIndex', 'PolicyIndex', 'OffsetSecondsRemainder',
        'OffsetSecondsCode', 'UntilYear', 'DeltaMinutes', 'UntilMonth',
        'UntilDay', 'UntilSecondsModifier', 'UntilSecondsCode'],
        'ZoneEraRecords')
    compare(cx, d.infos, I.get('ZoneInfoRecords'), [
        'ZoneID', 'NameIndex', 'EraIndex', 'EraCount', 'TargetIndex'],
        'ZoneInfoRecords')
    cx.cover('records')
    R = File(res.files['zone_registry.go'], 'go')
    T = File(res.files['zone_registry_test.go'], 'go')
    for pre, f, k in (('ZoneID', R, 0), ('ZoneInfoIndex', T, None)):
        vals = [(n, v) for n, v in list(f.values.items())
                + list(getattr(f, 'symbolic', [])) if starts_(n, pre)]
        cx.check(len(vals) == len(d.infos), 'number of %s constants' % pre)
        if any(not isinstance(n, str) for n, v in vals):
            continue
        ids = dict(vals)
        for i, info in enumerate(d.infos):
            nm = pick(cx, d.names, info[1], 'name')
            if not isinstance(nm, str):
                continue
            sym = pre + ident(nm)
            if sym not in ids:
                cx.fail('%s is missing' % sym)
                continue
            cx.check(value(ids[sym]) == (info[0] if k == 0 else i),
                     '%s constant' % pre)


def ident(name):
    return name.replace('+', '_PLUS_').replace('-', '_').replace('/', '_')


def starts_(n, pre):
    r = n.startswith(pre)
    return r if isinstance(r, bool) else bool(r)


def compare(cx, raws, grp, keys, what):
    if len(grp) != len(raws):
        cx.fail('%s has %d records, the table %d' % (what, len(grp),
                                                     len(raws)))
        return
    for raw, g in zip(raws, grp.items):
        cx.check(And(*[value(g.get(k)) == v for k, v in zip(keys, raw)]),
                 '%s differs from the table' % what)


def clock(cx, n, hi=25):
    h = cx.int(n + 'h', 0, hi)
    m = cx.int(n + 'm', 0, 59)
    s = cx.int(n + 's', 0, 59)
    return hms(False, h, m, s)


def rules(cx, kind, scope):
    """All fields of one rule."""
    f = 1985 if kind == 'on' else cx.int('f', 1700, 9999)
    to = 'max'
    if kind == 'to':
        to = cx.int('t', 1700, 9999)
        cx.assume(f <= to)
    sfx = cx.choice('sfx', ['', 's', 'u']) if kind == 'at' else ''
    at = cat(clock(cx, 'a'), sfx) if kind == 'at' else '2:00'
    save = '1:00'
    if kind == 'save':
        m = cx.int('save', 0, 127)
        neg = cx.flag('neg')
        save = hms(neg, 0, m) if False else cat('-' if neg else '', '0:',
                                                fmt(m % 60, '02'))
        if cx.flag('big'):
            save = cat('-' if neg else '', fmt(m // 60), ':',
                       fmt(m % 60, '02'))
    day = cx.int('d', 1, 28)
    on = fmt(day)
    mon = 3
    if kind == 'on':
        mon = cx.choice('mon', [1, 2, 6, 12])
        w = cx.choice('w', [1, 7])
        form = cx.choice('form', ['num', 'ge', 'le', 'last'])
        cx.assume(between(day, 8, 22))
        on = {'num': fmt(day), 'ge': cat(DOW[w], '>=', fmt(day)),
              'le': cat(DOW[w], '<=', fmt(day)),
              'last': 'last' + DOW[w]}[form]
    letter = cat(cx.char('c', 65, 90)) if kind == 'letter' else 'D'
    if kind == 'letter' and cx.flag('two'):
        letter = cat(letter, 'T')
    lines = [rule_line('P', f, to, mon, on, at, save, letter),
             rule_line('P', 1980, 'max', 10, '8', '2:00', '0',
                       'S' if kind != 'letter' else '-')]
    lines += zone_lines('Z/A', [('1:00', '-', 'X', until(1990)),
                                ('1:00', 'P', 'F%sT')])
    go(cx, lines, scope)


def go(cx, lines, scope='complete', **kw):
    o = dict(O)
    o.update(kw)
    res = run_main(cx, lines, default_opts(scope, 1980, 2030, nostrict=True,
                                           **o))
    if not db.generated(res):
        return
    inspect(cx, res)


def eras(cx, kind, n, sym):
    es = []
    for i in range(n):
        off, rul, u = '1:00', '-', None
        mine = i == sym
        if kind == 'offset' and mine:
            h = cx.int('h', 0, 15)
            m = cx.int('m', 0, 59)
            s = cx.int('s', 0, 59)
            off = hms(cx.flag('n'), h, m, s)
        if kind == 'delta' and mine:
            m = cx.int('m', 1, 59)
            rul = hms(cx.flag('n'), cx.int('h', 0, 3), m)
        if i < n - 1:
            u = until(1990 + i, 3, 5)
            if kind == 'date' and mine:
                mo = cx.choice('mo', [1, 2, 12])
                u = until(cx.int('y', 1980 + i if i else 1, 1990 + i
                                 if i < n - 2 else 9999), mo,
                          cx.int('d', 1, 28))
            if kind == 'time' and mine:
                u = until(1990 + i, 3, 5, cat(
                    clock(cx, 'u'), cx.choice('sfx', ['', 's', 'u'])))
        es.append((off, rul, 'F%d' % (n - i)) + ((u,) if u else ()))
    go(cx, zone_lines('Z/A', es))


def formats(cx):
    a = cx.text('a', 2, 65, 90)
    f = cx.choice('shape', ['%s', 'pct', 'two', '%z'])
    rl = [rule_line('P', 1980, 'max', 3, '8', '2:00', '1:00', 'D'),
          rule_line('P', 1980, 'max', 10, '8', '2:00', '0', 'S')]
    fm = {'%s': cat(a, '%sT'), 'pct': cat('%s', a), 'two': cat(a, '/', 'B'),
          '%z': '%z'}[f]
    go(cx, rl + zone_lines('Z/A', [('1:00', 'P', fm, until(2000)),
                                   ('1:00', '-', 'LMT', until(2001)),
                                   ('2:00', 'P', 'B%sT')]))


def names(cx, nz, nl, npol):
    c = [cx.char('c%d' % i, 65, 75) for i in range(2)]
    zs = [cat('Z/', c[0]), 'M/B', cat('D', c[1]), 'M/B_X'][:nz]
    for i, a in enumerate(zs):
        for b in zs[:i]:
            cx.assume(a != b)
    lines = []
    for i in range(npol):
        p = 'QAB'[i]
        lines += [rule_line(p, 1980 + i, 'max', 3 + i, '8', '2:00', '1:00',
                            'D'),
                  rule_line(p, 1980, 'max', 10, '8', '2:00', '0', 'S')]
        if i == 1:
            lines.append(rule_line(p, 1975, 1979, 10, '8', '2:00', '0', 'W'))
    off = cx.int('off', 1, 9)
    for i, z in enumerate(zs):
        es = [(fmt(off), '-', 'L', until(1985 + i))] if i % 2 else []
        es += [(fmt(off + i), 'QAB'[(nz - i) % npol], 'A%sT')]
        lines += zone_lines(z, es)
    for i in range(nl):
        l = ['L/A', cat('Y', c[1])][i]
        if i == 0:
            cx.assume(And(*[l != z for z in zs]))
        lines.append(link_line(zs[(nz - 1 - i) % nz], l))
    go(cx, lines)


def large(cx, what):
    off = cx.int('off', -12, 12)
    lines = []
    if what == 'zones':
        cx.assume(off >= 0)
        for i in range(300):
            lines += zone_lines('Zone/N%03d' % ((i * 7) % 300), [
                (fmt(off), '-', 'L%03d' % i, until(1990 + i % 9)),
                (fmt(off), '-', 'K%03d' % (i % 290))])
        for i in range(5):
            lines.append(link_line('Zone/N%03d' % (i * 57), 'Link/%d' % i))
    elif what == 'policies':
        # more than 128 policies and letters
        cx.assume(off >= 0)
        abc = ''.join(chr(c) for c in range(33, 127) if chr(c).isalnum())
        letters = list(abc) + [a + b for a in 'ABC' for b in abc[:30]]
        for i in range(200):
            lines.append(rule_line('P%03d' % i, 1980 + i % 50, 'max', 3, '8',
                                   '2:00', '1:00',
                                   letters[(i * 11) % len(letters)]))
            lines.append(rule_line('P%03d' % i, 1980, 'max', 10, '8', '2:00',
                                   '0', 'S'))
        for i in range(200):
            lines += zone_lines('Z/%03d' % i, [
                (fmt(off), 'P%03d' % ((i * 7) % 200), 'F%s')])
    elif what == 'eras':
        # a zone of more than 128 eras
        cx.assume(off >= 0)
        for k, ne in enumerate((3, 200, 2)):
            lines += zone_lines('Z/%d' % k, [
                (fmt(off + k), '-', 'E%02d' % (i % 70),
                 until(1985 + i // 2, 1 + 6 * (i % 2)))
                for i in range(ne)] + [(fmt(off), '-', 'LAST')])
    else:
        at = clock(cx, 'a')
        counts = (70, 300, 40)
        for k, nr in enumerate(counts):
            for i in range(nr):
                lines.append(rule_line('P%d' % k, 1980 + i % 100, 'only',
                                       3 + i // 100, '8', at, '1:00', 'D'))
        for i in range(3):
            lines.append(rule_line('P%d' % i, 1980, 'max', 10, '8', '2:00',
                                   '0', 'S'))
            lines += zone_lines('Z/%d' % i, [('1:00', 'P%d' % i, 'F%s')])
    res = run_main(cx, lines, default_opts(
        'complete', 1980, 2090, nostrict=True, **O))
    if db.generated(res):
        inspect(cx, res)
    else:
        raise Inconclusive('the large database is not generated')


def jobs(tier):
    out = [Job('rule-' + k, rules, kind=k, scope='complete')
           for k in ('from', 'to', 'at', 'on', 'save', 'letter')]
    for k in ('offset', 'date', 'time', 'delta'):
        for n in (2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for i in range(n if k in ('offset', 'delta') else n - 1):
                out.append(Job('era-%s-%d-%d' % (k, n, i), eras, kind=k, n=n,
                               sym=i))
    out.append(Job('formats', formats))
    sh = [(2, 1, 1), (3, 1, 2), (3, 2, 3)]
    if tier != 'quick':
        sh += [(4, 2, 2), (4, 2, 3), (1, 2, 1)]
    out += [Job('names-%d-%d-%d' % s, names, nz=s[0], nl=s[1], npol=s[2])
            for s in sh]
    out += [Job('large-zones', large, what='zones', validate=1),
            Job('large-rules', large, what='rules', validate=1),
            Job('large-policies', large, what='policies', validate=1),
            Job('large-eras', large, what='eras', validate=1)]
    if tier != 'quick':
        out += [Job('ext-rule-' + k, rules, kind=k, scope='extended')
                for k in ('from', 'to', 'at', 'save', 'letter')]
    return out
