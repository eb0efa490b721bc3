"""C31: neither the order of the records nor an earlier run matters."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts, ZONE_FILES
from harness.run import Job
from harness.tz import *
from harness.props.c27 import same, sameset, yes

BOUNDS = ('three zones of up to three eras, three links, three policies of '
          'two or three rules with symbolic FROM, TO, UNTIL years, AT, SAVE '
          'and STDOFF seconds; the records in six orders and spread over one '
          'to nine files in three ways; the rules of a policy in every '
          'order; an earlier run with another source in the same process; '
          'the three scopes, all languages')
OUTSIDE = ('rules of standard time on one day with different letters; names '
           'that occur twice; the order of the keys of the JSON objects, '
           'which is the order of the source for some')
COVERS = ['order', 'files', 'rules', 'again', 'removed', 'all-kept', 'noted',
          'python', 'arduino', 'c', 'go', 'rule-dropped', 'era-dropped']
LANGS = ['python', 'arduino', 'c', 'go']


def same_json(cx, a, b, what, skip=()):
    ka, kb = [k for k in a if k not in skip], [k for k in b if k not in skip]
    cx.check(sorted(ka) == sorted(kb), what + ': keys')
    for k in ka:
        if k in kb:
            cx.check(eq(a[k], b[k]), '%s: %s' % (what, k))


def same_result(cx, r, q, what, rule_order=True):
    """Two runs gave the same."""
    if r.exc is not None or q.exc is not None:
        cx.check((r.exc is None) == (q.exc is None),
                 what + ': only one of the runs fails')
        return False
    if r.json is None or q.json is None:
        cx.check(r.json is None and q.json is None, what + ': JSON')
        return False
    cx.check(sorted(r.files) == sorted(q.files), what + ': files')
    if rule_order:
        same_json(cx, r.json, q.json, what)
    else:
        same_json(cx, r.json, q.json, what, ('policies_map',))
        pa, pb = r.json['policies_map'], q.json['policies_map']
        cx.check(sameset(list(pa.keys()), list(pb.keys())),
                 what + ': policies')
        for p in pa:
            if p not in pb:
                continue
            for k in pa[p]:
                if k != 'rules':
                    cx.check(eq(pa[p][k], pb[p][k]), '%s: %s' % (what, k))
            ra, rb = pa[p]['rules'], pb[p]['rules']
            cx.check(sameset(ra, rb), what + ': rules')
    for fn in sorted(r.files):
        if fn in q.files and (rule_order or 'polic' not in fn):
            cx.check(eq(r.files[fn], q.files[fn]), '%s: %s' % (what, fn))
    return True


def go(cx, L, lang, scope, name, strict=False):
    return run_main(cx, L, default_opts(
        scope, 2000, 2003, strict=strict, nostrict=not strict,
        actions='zonedb,json,zonelist', languages=lang,
        skip_bufestimator=lang not in ('arduino', 'c')), name=name)


def blocks(cx, lang, what, full=False):
    """Records that may be moved around."""
    small = lang in ('arduino', 'c') and not full
    lo, hi = (1998, 2004) if small else (1985, 2015)
    at, save, std = '2:00', '1:00', '1:00'
    f, t, u, v = 1998, 2010, 2001, 2002
    if what == 'years':
        f, t = cx.int('f', lo, hi), cx.int('t', lo, hi)
        cx.assume(f <= t)
    elif what == 'eras':
        u, v = cx.int('u', lo, hi), cx.int('v', lo, hi)
        cx.assume(u < v)
    elif what == 'times':
        at = cat('2:00:', fmt(cx.int('at', 10, 59)))
        save = cat('1:', fmt(cx.int('save', 10, 59)))
        std = cat('1:00:', fmt(cx.int('std', 10, 59)))
    s1, s2 = (1980, 1990, '8'), (1985, 2040, '9')
    if what == 'anchor':
        # two rules of standard time begin in the same month
        d = cx.int('d', 1, 28)
        cx.assume(d != 8)
        s1, s2 = (1996, 2010, '8'), (1996, 2012, d)
    if what == 'names':
        # two fragments
        k = cx.choice('k', ['Aaaa', 'Dddd', 'Bbbb'])
        n = [k + '/Cccc/A', 'Cccc/' + k + '/B', 'Cccc/' + k + '/C']
        m = [x + 'l' for x in n]
    else:
        n = ['Z/A', 'Z/B', 'Z/C']
        m = ['L/A', 'L/B', 'L/C']
    B = []
    B.append([rule_line('P', f, t, 3, '8', at, save, 'D'),
              rule_line('P', s1[0], s1[1], 10, s1[2], '2:00', '0', 'S'),
              rule_line('P', s2[0], s2[1], 10, s2[2], '2:00', '0', 'T')])
    B.append(zone_lines(n[2], [(std, '-', 'A', until(u)),
                                ('1:00', 'P', 'B%s', until(v)),
                                ('2:00', 'Q', 'C%s')]))
    B.append([link_line(n[0], m[1])])
    B.append([rule_line('R', 1990, 1992, 3, '8', '2:00', '1:00', 'D'),
              rule_line('R', 1990, 1992, 10, '8', '2:00', '0', 'S')])
    B.append(zone_lines(n[0], [('1:00', 'Q', 'A%s')]))
    B.append([link_line(n[2], m[2])])
    B.append(zone_lines(n[1], [('3:00', 'R', 'D%s', until(1993)),
                                ('3:00', 'P', 'A%s')]))
    B.append([rule_line('Q', 1998, 2010, 3, '8', '2:00', '1:00', 'D'),
              rule_line('Q', 1998, 2010, 10, '8', '2:00', '0', 'S')])
    B.append([link_line(n[1], m[0])])
    return B


def flat(B):
    return [x for b in B for x in b]


ORDERS = {
    'reverse': lambda B: B[::-1],
    'rotate': lambda B: B[4:] + B[:4],
    'zones-first': lambda B: [B[i] for i in (4, 6, 1, 2, 5, 8, 7, 3, 0)],
    'links-first': lambda B: [B[i] for i in (8, 5, 2, 7, 0, 3, 6, 4, 1)],
    'policies-last': lambda B: [B[i] for i in (6, 8, 1, 5, 4, 2, 3, 0, 7)],
    'interleaved': lambda B: [B[1], B[0][:1], B[7][:1], B[0][1:], B[4], B[3],
                              B[7][1:], B[6], B[8], B[5], B[2]],
}


def order(cx, lang, scope, what, how, full=False):
    B = blocks(cx, lang, what, full)
    r = go(cx, flat(B), lang, scope, 'first')
    q = go(cx, flat(ORDERS[how](B)), lang, scope, 'second')
    if same_result(cx, r, q, 'order ' + how):
        facts(cx, r, lang)
        cx.cover('order')


def facts(cx, r, lang):
    J = r.json
    cx.cover(lang)
    cx.cover('removed', len(J['removed_zones']) > 0)
    cx.cover('all-kept', len(J['zones_map']) == 3)
    cx.cover('noted', len(J['notable_policies']) > 0)
    cx.cover('rule-dropped', J['num_rules'] < 9)
    cx.cover('era-dropped', J['num_eras'] < 6)


def files(cx, lang, scope, what, how, full=False):
    """The records in several files."""
    B = blocks(cx, lang, what, full)
    r = go(cx, flat(B), lang, scope, 'first')
    D = {}
    if how == 'last':
        D['southamerica'] = flat(B)
    elif how == 'each':
        for i, b in enumerate(B):
            D.setdefault(ZONE_FILES[(i * 4) % 9], []).extend(b)
    elif how == 'split':
        # the rules of a policy in two files
        D['europe'] = flat(B[1:]) + B[0][2:]
        D['asia'] = B[0][:2]
    q = go(cx, D, lang, scope, 'second')
    if same_result(cx, r, q, 'files ' + how, how != 'split'):
        facts(cx, r, lang)
        cx.cover('files')


PERMS = [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def rules(cx, lang, scope, what, perm, full=False):
    """The rules of a policy in another order."""
    B = blocks(cx, lang, what, full)
    r = go(cx, flat(B), lang, scope, 'first')
    B2 = list(B)
    B2[0] = [B[0][i] for i in perm]
    B2[7] = B[7][::-1]
    q = go(cx, flat(B2), lang, scope, 'second')
    if same_result(cx, r, q, 'rules', False):
        facts(cx, r, lang)
        cx.cover('rules')


def again(cx, lang, scope, what):
    """A run with other records in between."""
    B = blocks(cx, lang, what)
    r = go(cx, flat(B), lang, scope, 'first')
    L = [rule_line('P', 1990, 2020, 4, 'lastSun', '2:00u', '1:00', 'XY'),
         rule_line('P', 1990, 2020, 9, 'lastSun', '2:00:30', '0', 'ZZ')]
    L += zone_lines('Z/C', [('5:00', 'P', 'LONG%s')])
    L += zone_lines('Z/Aaaaa', [('1:07', 'P', 'LONG/X')])
    L += zone_lines('Z/N', [('1:00', 'Nope', 'A')])
    L += [link_line('Z/C', 'Z/A'), link_line('Z/Gone', 'L/B')]
    go(cx, L, lang, scope, 'between')
    q = go(cx, flat(B), lang, scope, 'second')
    if same_result(cx, r, q, 'again'):
        facts(cx, r, lang)
        cx.cover('again')


def jobs(tier):
    full = tier == 'thorough'
    out = []
    n = 0
    for scope in ('basic', 'extended', 'complete'):
        for lang in LANGS:
            for what in ('years', 'eras', 'times', 'anchor', 'names'):
                s = '%s-%s-%s' % (scope, lang, what)
                n += 1
                hows = sorted(ORDERS)
                if not full:
                    hows = [hows[n % 6], hows[(n + 3) % 6]]
                for how in hows:
                    out.append(Job('order-%s-%s' % (how, s), order, lang=lang,
                                   scope=scope, what=what, how=how,
                                   full=full))
                for how in (['last', 'each', 'split'] if full else
                            [['each', 'split', 'last'][n % 3]]):
                    out.append(Job('files-%s-%s' % (how, s), files, lang=lang,
                                   scope=scope, what=what, how=how,
                                   full=full))
                for p in (PERMS if full or what == 'anchor' else
                          [PERMS[n % 5]]):
                    out.append(Job('rules-%d%d%d-%s' % (p + (s,)), rules,
                                   lang=lang, scope=scope, what=what, perm=p,
                                   full=full))
                out.append(Job('again-' + s, again, lang=lang, scope=scope,
                               what=what))
    return out
