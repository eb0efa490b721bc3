"""C36: a refused run never leaves a half-written database."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts, ZONE_FILES
from harness.props.c13 import LANGF
from harness.run import Job
from harness.tz import *

BOUNDS = ('one cause of refusal at a time, symbolic: fixed RULES and SAVE '
          'amounts up to 3:59, TO and UNTIL years up to 99999, UNTIL years '
          'in any order, the window and base year, a buffer size of 5..11, '
          'the characters of names that collide, link targets, formats, 250 '
          'to 260 bytes of letters, 254 to 257 eras or rules, a missing input '
          'file, no namespace, no buffer sizes; each language alone and with others, the three '
          'actions together; the three scopes')
OUTSIDE = 'failures of the file system while a file is written'
COVERS = ['refused', 'done', 'rules', 'save', 'to-year', 'until-year',
          'order', 'window', 'buffer', 'names', 'target', 'format',
          'letters', 'many', 'missing', 'namespace', 'refused-go', 'skipped',
          'refused-python', 'refused-c', 'refused-arduino']
CC = ('arduino', 'c')


def judge(cx, res, langs, what, early):
    """The files of each language, and of each action, all or none."""
    if res.exc is None:
        for l in langs:
            cx.check(set(LANGF[l]) <= set(res.files), 'files of a language')
        cx.check(res.json is not None and 'zones.txt' in res.files,
                 'files of the other actions')
        cx.cover('done')
        return
    cx.cover('refused')
    cx.cover(what)
    for l in langs:
        n = [f for f in LANGF[l] if f in res.files]
        if 'arduino' in langs and 'c' in langs:
            # the headers have the same names
            n = [f for f in n if not f.endswith('.h')]
            cx.check(len(n) in (0, 3), 'a refused run leaves some of the '
                     'files of ' + l)
        else:
            cx.check(len(n) in (0, len(LANGF[l])), 'a refused run leaves '
                     'some of the files of ' + l)
        cx.cover('refused-' + l)
    for f in list(res.files):
        t = res.files[f]
        cx.check(len(t) > 0 and eq(t[-1:], '\n'),
                 'a refused run leaves an unfinished file')
    if early:
        cx.check(not res.names, 'a run that is refused for its source or '
                 'options writes files')
    else:
        cx.check(res.json is None and 'zones.txt' not in res.files,
                 'a refused run writes the other outputs')


def run(cx, scope, langs, L, what, early, zp=None, start=2000, end=2030,
        **kw):
    res = run_main(cx, L, default_opts(
        scope, start, end, languages=','.join(langs),
        actions='json,zonedb,zonelist',
        skip_bufestimator=not set(langs) & set(CC) and zp is None, **kw),
        zp=zp)
    judge(cx, res, langs, what, early)
    return res


P = [rule_line('P', 1990, 2040, 3, '8', '2:00', '1:00', 'D'),
     rule_line('P', 1990, 2040, 10, '8', '2:00', '0', 'S')]
B = zone_lines('Z/B', [('1:00', 'P', 'B%sT')]) + [link_line('Z/B', 'L/B')]


def amount(cx, scope, langs, what, first):
    m = cx.int('m', 0, 3) * 60 + cx.int('mm', 0, 59)
    neg = cx.flag('neg')
    t = cat('-' if neg else '', fmt(m // 60), ':', fmt(m % 60, '02'))
    if what == 'rules':
        cx.assume(m != 0)
        L = zone_lines('Z/A', [('1:00', t, 'A')])
        L = P + (L + B if first else B + L)
    else:
        Q = [rule_line('Q', 1990, 2040, 3, '8', '2:00', t, 'D'),
             rule_line('Q', 1990, 2040, 10, '8', '2:00', '0', 'S')]
        L = P + Q + B + zone_lines('Z/A', [('1:00', 'Q', 'A%sT')])
    run(cx, scope, langs, L, what,
        'go' not in langs, nostrict=True)


def years(cx, scope, langs, what):
    y = cx.int('y', 20000, 99999)
    if what == 'to-year':
        L = [rule_line('Q', 1990, y, 3, '8', '2:00', '1:00', 'D'),
             rule_line('Q', 1990, 2040, 10, '8', '2:00', '0', 'S')]
        L += zone_lines('Z/A', [('1:00', 'Q', 'A%sT')])
        run(cx, scope, langs, P + B + L, what, False)
    else:
        L = zone_lines('Z/A', [('1:00', '-', 'A', until(y)),
                               ('2:00', '-', 'B')])
        cx.assume(y >= 32000)
        run(cx, scope, langs, P + B + L, what, False, end=40000)


def order(cx, scope, langs):
    a, b = cx.int('a', 2003, 2020), cx.int('b', 2003, 2020)
    L = zone_lines('Z/A', [('1:00', '-', 'A', until(a)),
                           ('2:00', '-', 'B', until(b)), ('3:00', '-', 'C')])
    run(cx, scope, langs, P + B + L, 'order', True)


def window(cx, scope, langs):
    a = cx.int('a', 1950, 2050)
    base = cx.int('base', 1900, 2200)
    run(cx, scope, langs, zone_lines('Z/B', [('1:00', '-', 'B')]), 'window',
        True, start=a, end=2060, tiny_base_year=base)


def buffer(cx, scope, langs):
    v = cx.int('v', 5, 11)

    class ZP(env.DefaultZP):
        def get_buffer_sizes(self):
            return types.SimpleNamespace(active_size=1, buffer_size=v)
    run(cx, scope, langs, P + B, 'buffer', True, zp=ZP)


def names(cx, scope, langs, kind):
    k = cx.int('c', 45, 95)
    cx.assume(Or(k == 45, k == 95, k == 46, between(k, 65, 90)))
    under = bool(k == 95)
    c = chr(k) if isinstance(k, int) else SymStr.char(k)
    L = zone_lines('Z/A_X', [('1:00', '-', 'A')])
    if kind == 'zone':
        L += zone_lines(cat('Z/A', c, 'X'), [('1:00', '-', 'A')]) \
            if not under else []
    elif kind == 'link':
        L.append(link_line('Z/B', cat('Z/A', c, 'X')))
    else:
        n = cat('P', c)
        if under:
            return
        for q in ('P_', n):
            L += [rule_line(q, 1990, 2040, 3, '8', '2:00', '1:00', 'D'),
                  rule_line(q, 1990, 2040, 10, '8', '2:00', '0', 'S')]
        L += zone_lines('Z/P', [('1:00', 'P_', 'A%s', until(2010)),
                                ('2:00', n, 'B%s')])
    run(cx, scope, langs, P + B + L, 'names', True)


def target(cx, scope, langs):
    c = cx.char('c', 65, 70)
    L = [link_line(cat('Z/', c), 'L/C')]
    run(cx, scope, langs, P + B + L, 'target', True)


def format_(cx, scope, langs):
    f = cat(cx.char('a', 65, 90), '%', cx.char('b', 110, 122),
            cx.choice('t', ['', '+']))
    r = cx.choice('r', ['P', '-'])
    run(cx, scope, langs, P + B + zone_lines('Z/A', [('1:00', r, f)]),
        'format', True)


def letters(cx, scope, langs):
    n = cx.choice('n', list(range(250, 261)))
    l1 = 'A' * 100
    l2 = 'B' * (n - 101)
    Q = [rule_line('Q', 1990, 2040, 3, '8', '2:00', '1:00', l1),
         rule_line('Q', 1990, 2040, 10, '8', '2:00', '0', l2)]
    run(cx, scope, langs, P + B + Q + zone_lines('Z/A', [
        ('1:00', 'Q', 'A%s')]), 'letters', True)


def many(cx, scope, langs, what):
    n = cx.choice('n', [254, 255, 256, 257])
    if what == 'eras':
        L = zone_lines('Z/A', [
            ('%d:00' % (i % 9), '-', 'A', '%d' % (2000 + i))
            for i in range(n - 1)] + [('9:00', '-', 'B')])
    else:
        L = [rule_line('Q', 2000 + i // 2, 2000 + i // 2, 3 if i % 2 else 10,
                       '8', '2:00', '1:00' if i % 2 else '0', 'D')
             for i in range(n - 1)]
        L += zone_lines('Z/A', [('1:00', 'Q', 'A%s')])
    run(cx, scope, langs, P + B + L, 'many', True, end=2300)


def missing(cx, scope, langs):
    k = cx.choice('k', list(range(len(ZONE_FILES) + 2)))
    L, kw = {'africa': P + B}, {}
    if k < len(ZONE_FILES):
        L[ZONE_FILES[k]] = None
    elif k == len(ZONE_FILES):
        kw = dict(include_list='in/nothing.txt')
    res = run(cx, scope, langs, L, 'missing', True, **kw)
    cx.check(Implies(res.exc is None, k == len(ZONE_FILES) + 1),
             'a run goes on without one of its input files')


def skipped(cx, scope, langs):
    """C++ and C need the buffer sizes."""
    skip = cx.flag('skip')
    res = run_main(cx, P + B, default_opts(
        scope, 2000, 2030, languages=','.join(langs),
        actions='json,zonedb,zonelist', skip_bufestimator=skip))
    judge(cx, res, langs, 'skipped', False)


def namespace(cx, scope, langs):
    ns = cx.choice('ns', [None, 'db'])
    run(cx, scope, langs, P + B, 'namespace',
        langs[0] != 'python', db_namespace=ns)


def jobs(tier):
    full = tier == 'thorough'
    out = []

    def add(name, fn, **kw):
        out.append(Job(name, fn, **kw))
    sets = [('python',), ('arduino',), ('c',), ('go',),
            ('python', 'arduino', 'c', 'go')]
    for langs in sets:
        tag = langs[0] if len(langs) == 1 else 'all'
        cc = set(langs) & set(CC)
        for scope in ('complete', 'extended', 'basic'):
            t = '%s-%s' % (scope, tag)
            for what in ('rules', 'save'):
                if scope == 'basic' and what == 'rules':
                    continue
                if not full and scope != 'complete' and tag in ('python',
                                                                'c'):
                    continue
                add('%s-%s' % (what, t), amount, scope=scope, langs=langs,
                    what=what, first=tag != 'go')
            if scope == 'complete':
                add('to-year-' + t, years, scope=scope, langs=langs,
                    what='to-year')
                if not cc:
                    add('until-year-' + t, years, scope=scope, langs=langs,
                        what='until-year')
                for what in ('eras', 'rules'):
                    add('many-%s-%s' % (what, t), many, scope=scope,
                        langs=langs, what=what)
            if scope != 'complete' and not full:
                if tag != 'all':
                    continue
            add('order-' + t, order, scope=scope, langs=langs)
            add('namespace-' + t, namespace, scope=scope, langs=langs)
            add('missing-' + t, missing, scope=scope, langs=langs)
            add('letters-' + t, letters, scope=scope, langs=langs)
            add('format-' + t, format_, scope=scope, langs=langs)
            add('target-' + t, target, scope=scope, langs=langs)
            if scope != 'complete':
                add('window-' + t, window, scope=scope, langs=langs)
            if cc:
                add('skipped-' + t, skipped, scope=scope, langs=langs)
                add('buffer-' + t, buffer, scope=scope, langs=langs)
            for kind in ('zone', 'link', 'policy'):
                add('names-%s-%s' % (kind, t), names, scope=scope,
                    langs=langs, kind=kind)
    return out


import types  # noqa: E402
from pysym.strings import SymStr  # noqa: E402
