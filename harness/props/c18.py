"""C18: links always resolve to a generated zone with its data."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File, Bad, Ref, Group, Str, num
from harness.godb import GoDb, pick, block, index

BOUNDS = ('three zones of 1..3 eras and three links with symbolic names '
          '(one letter each, so any order) and any targets; links whose '
          'target name has two symbolic characters and may be a zone, a link, '
          'itself or nothing; a target removed for a symbolic UNTIL or '
          'STDOFF; with and without include lists; the three scopes')
OUTSIDE = 'more than three links; name characters other than letters'
COVERS = ['link-python', 'link-arduino', 'link-c', 'link-go', 'link-to-link',
          'self', 'dangling', 'resolved', 'removed-target', 'kept-target',
          'same-target', 'order']


def same(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else bool(r)


def letter(cx, n):
    c = cx.int(n, 65, 90)
    return chr(c) if isinstance(c, int) else SymStr.char(c)


ERAS = [[('1:00', '-', 'A')],
        [('2:00', '-', 'B', until(2005)), ('3:00', 'P', 'C%s')],
        [('4:00', '-', 'D', until(2004)), ('5:00', '-', 'E', until(2006)),
         ('6:00', 'P', 'F%s')]]


# a zone of many eras
BIG = [[('%d:00' % (i % 12), '-', 'G%d' % i, until(2001 + i))
        for i in range(9)] + [('6:00', 'P', 'F%s')]] + ERAS[1:]


def rules():
    return [rule_line('P', 1998, 2004, 3, '8', '2:00', '1:00', 'D'),
            rule_line('P', 1997, 2003, 10, '8', '2:00', '0', 'S')]


def outputs(cx, lang, scope, order, targets, big=False):
    eras = BIG if big else ERAS
    zs = [cat('Z/', letter(cx, 'z%d' % i), 'pqr'[i])
          if i in order else 'Z/N' + 'pqr'[i] for i in range(3)]
    ls = [cat('L/' if i else 'Z/', letter(cx, 'l%d' % i), 'stu'[i])
          if 3 + i in order else 'L/N' + 'stu'[i] for i in range(3)]
    tg = [cx.forked('t%d' % i, 0, 2) if targets[i] is None else targets[i]
          for i in range(3)]
    L = rules()
    for z, e in zip(zs, eras):
        L += zone_lines(z, e)
    for l, t in zip(ls, tg):
        L.append(link_line(zs[t], l))
    res = run_main(cx, L, default_opts(
        scope, 2000, 2030, languages=lang, actions='json,zonedb',
        skip_bufestimator=lang in ('python', 'go')))
    if not db.generated(res):
        hs = [djb2(x) for x in zs + ls]
        cx.check(Or(*[h == 0 for h in hs], *[
            a == b for i, a in enumerate(hs) for b in hs[:i]]),
            'valid links are refused')
        return
    lm = res.json['links_map']
    cx.check(len(lm) == 3, 'number of links')
    for l, t in zip(ls, tg):
        cx.check(lm[l] == zs[t], 'target in the database')
    cx.cover('same-target', len(set(tg)) < 3)
    if not isinstance(zs[0], str) and not isinstance(zs[1], str):
        cx.cover('order', codes(zs[0])[2] > codes(zs[1])[2])
    elif not cx.sym:
        cx.cover('order')
    try:
        {'python': py, 'arduino': cc, 'c': cc, 'go': go}[lang](
            cx, res, lang, zs, ls, tg, eras)
        cx.cover('link-' + lang)
    except Bad as e:
        cx.fail('generated source: %s' % e)


def djb2(s):
    h = 5381
    for c in codes(s):
        h = (33 * h + c) % 2**32
    return h


def sym(s):
    return s.replace('/', '_')


def py(cx, res, lang, zs, ls, tg, eras):
    I = File(res.files['zone_infos.py'], 'py')
    for l, t in zip(ls, tg):
        rec = I.find(cat('ZONE_INFO_', sym(l)))
        zone = I.find(cat('ZONE_INFO_', sym(zs[t])))
        cx.check_eq(rec.get('eras'), zone.get('eras'), 'eras of a link')
        cx.check_eq(rec.get('eras'), cat('ZONE_ERAS_', sym(zs[t])),
                    'eras of a link')
        cx.check_eq(rec.get('link_to'), cat('ZONE_INFO_', sym(zs[t])),
                    'target of a link')
        cx.check_eq(rec.get('name').text(), l, 'name of a link')
        cx.check(len(I.find(cat('ZONE_ERAS_', sym(zs[t])))) == len(eras[t]),
                 'number of eras')


def cc(cx, res, lang, zs, ls, tg, eras):
    ext = 'cpp' if lang == 'arduino' else 'c'
    pre, zp = ('k', 'k') if lang == 'arduino' else ('kAtc', 'kzonedb')
    I = File(res.files['zone_infos.' + ext], ext)
    for l, t in zip(ls, tg):
        rec = I.find(cat(zp, 'Zone', sym(l)))
        zone = I.find(cat(zp, 'Zone', sym(zs[t])))
        # name, id, context, numEras, eras, target
        cx.check(num(rec[3]) == len(eras[t]), 'number of eras of a link')
        cx.check_eq(rec[3], zone[3], 'number of eras of a link')
        cx.check_eq(rec[4], zone[4], 'eras of a link')
        cx.check_eq(rec[4], cat(pre, 'ZoneEra', sym(zs[t])),
                    'eras of a link')
        cx.check_eq(name_of(rec[2]), name_of(zone[2]), 'context of a link')
        cx.check_eq(name_of(rec[5]), cat(zp, 'Zone', sym(zs[t])),
                    'target of a link')
        cx.check(not isinstance(zone[5], Ref), 'a zone has a target')
        cx.check_eq(rec[0], cat(pre, 'ZoneName', sym(l)), 'name of a link')
        cx.check(num(rec[1]) == djb2(l), 'id of a link')


def name_of(v):
    return v.name if isinstance(v, Ref) else v


def go(cx, res, lang, zs, ls, tg, eras):
    d = GoDb(cx, res)
    cx.check(len(d.infos) == 6, 'number of Go records')
    got = [pick(cx, d.names, i[1], 'name') for i in d.infos]
    for l, t in zip(ls, tg):
        k = only(cx, got, l)
        z = only(cx, got, zs[t])
        if k is None or z is None:
            continue
        _, _, ei, ec, ti = d.infos[k]
        cx.check(ti == z, 'target index of a link')
        cx.check(ec == 0, 'a Go link has eras of its own')
        cx.check(d.infos[z][3] == len(eras[t]), 'number of eras of a target')
        cx.check(d.infos[k][0] == djb2(l), 'id of a link')


def only(cx, got, n):
    r = [i for i, g in enumerate(got) if same(g, n)]
    if len(r) != 1:
        cx.fail('%d Go records have the same name' % len(r))
        return None
    return r[0]


def chain(cx, scope, inc, first):
    """A link to whatever its target name happens to be."""
    tgt = cat(cx.char('a', 76, 90), '/', cx.char('b', 65, 90))
    L = zone_lines('Z/A', [('1:00', '-', 'X')]) + zone_lines(
        'Z/B', [('1:00', '-', 'X')])
    ll = [link_line('Z/A', 'L/A'), link_line(tgt, 'L/B'),
          link_line('Z/B', 'M/A')]
    if first:
        ll.reverse()
    kw = dict(include=['Z/A', 'L/B'] if inc == 1 else
              ['Z/A', 'Z/B', 'L/A', 'M/A', 'L/B']) if inc else {}
    res = run_main(cx, L + ll, default_opts(scope), **kw)
    chained = Or(*[tgt == x for x in ('L/A', 'L/B', 'M/A')])
    zone = Or(tgt == 'Z/A', And(tgt == 'Z/B', inc != 1))
    if not db.generated(res):
        cx.check(Or(chained, Not(zone)), 'a link to a zone is refused')
        cx.cover('link-to-link', chained)
        cx.cover('self', tgt == 'L/B')
        return
    cx.check(Not(chained), 'a link to a link is accepted')
    J = res.json
    for l in J['links_map']:
        t = J['links_map'][l]
        cx.check(Or(*[t == z for z in J['zones_map']]),
                 'a link refers to a zone that is not generated')
    if 'L/B' in J['links_map']:
        cx.check(zone, 'a dangling link is generated')
        cx.check(J['links_map']['L/B'] == tgt, 'target of a link')
        cx.cover('resolved')
    else:
        cx.check(Not(zone), 'a link to a generated zone is removed')
        ok = 'L/B' in J['removed_links']
        cx.check(ok and len(J['removed_links']['L/B']) > 0,
                 'no reason for a removed link')
        cx.cover('dangling')


def removed(cx, scope, what, lang):
    """The target may be removed."""
    if what == 'until':
        eras = [('1:00', '-', 'A', until(cx.int('y', 1990, 2040), cx.choice(
            'm', [None, 2, 3]))), ('2:00', '-', 'B', until(2010)),
            ('3:00', '-', 'C')]
    else:
        eras = [(hms(False, cx.int('h', 0, 40), cx.int('n', 0, 59),
                     cx.int('s', 0, 59)), '-', 'A')]
    L = zone_lines('Z/A', eras) + zone_lines('Z/B', [('1:00', '-', 'X')])
    L += [link_line('Z/A', 'L/A'), link_line('Z/B', 'L/B'),
          link_line('Z/A', 'L/C')]
    res = run_main(cx, L, default_opts(
        scope, 2000, 2030, languages=lang, actions='json,zonedb',
        skip_bufestimator=lang in ('python', 'go')))
    if not db.generated(res):
        return
    J = res.json
    kept = 'Z/A' in J['zones_map']
    for l in ('L/A', 'L/C'):
        cx.check((l in J['links_map']) == kept, 'link to a removed zone')
        if not kept:
            ok = l in J['removed_links']
            cx.check(ok and len(J['removed_links'][l]) > 0,
                     'no reason for a removed link')
    cx.check(J['links_map']['L/B'] == 'Z/B', 'unrelated link')
    cx.cover('kept-target' if kept else 'removed-target')
    # no generated file mentions the zone's symbol
    ext = {'python': 'py', 'arduino': 'cpp', 'c': 'c', 'go': 'go'}[lang]
    try:
        if lang == 'go':
            d = GoDb(cx, res)
            cx.check(len(d.infos) == (5 if kept else 2), 'Go records')
            return
        I = File(res.files['zone_infos.' + ext], ext)
        R = File(res.files['zone_registry.' + ext], ext)
        for f in (I, R):
            syms = f.names + [x for v in f.values.values() for x in flat(v)]
            for s in ('Z_A', 'L_A', 'L_C'):
                hit = any(isinstance(x, str) and x.endswith(s) for x in syms)
                cx.check(hit == kept, 'record of a removed zone or link')
    except Bad as e:
        cx.fail('generated source: %s' % e)


def flat(v):
    if isinstance(v, Ref):
        return [v.name]
    if isinstance(v, Group):
        return [x for i in v.items for x in flat(i)]
    return [v] if isinstance(v, str) else []


def jobs(tier):
    q = tier == 'quick'
    out = []
    for lang in ('python', 'arduino', 'c', 'go'):
        for i, (sc, order, tg) in enumerate(
                [('complete', (0, 1), (None, None, 0)),
                 ('basic', (3, 4), (None, 1, None)),
                 ('extended', (0, 3), (2, None, None)),
                 ('extended', (2, 5), (None, None, None))] + (
                [] if q else
                [('complete', (0, 1, 2), (None, 1, None)),
                 ('complete', (3, 4, 5), (None, None, None)),
                 ('extended', (0, 4, 5), (None, None, None)),
                 ('basic', (1, 2, 3), (None, None, None))])):
            out.append(Job('%s-%d' % (lang, i), outputs, lang=lang, scope=sc,
                           order=order, targets=tg))
        for sc in ('extended', 'basic', 'complete')[:2 if q else 3]:
            out.append(Job('%s-big-%s' % (lang, sc), outputs, lang=lang,
                           scope=sc, order=(0, 3), targets=(None, 0, 1),
                           big=True))
        for sc in ('basic', 'extended') if q else ('basic', 'extended',
                                                   'complete'):
            for w in ('until', 'stdoff'):
                out.append(Job('removed-%s-%s-%s' % (lang, sc, w), removed,
                               scope=sc, what=w, lang=lang))
    for sc in ('basic', 'extended', 'complete'):
        for inc in (0, 1, 2):
            for f in (0, 1):
                out.append(Job('chain-%s-%d-%d' % (sc, inc, f), chain,
                               scope=sc, inc=inc, first=f))
    return out


from pysym.strings import SymStr  # noqa: E402
