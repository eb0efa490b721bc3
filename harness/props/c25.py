"""C25: output does not depend on set iteration order."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile

from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File, Ref, Group
from pysym.core import E

BOUNDS = ('every order of one set at a time (thorough: two) of up to four '
          'elements (longer sets: reversed and rotated), and all sets '
          'reversed, against the insertion order; two or three policies and zones with up to three '
          'notes or reasons each, symbolic minutes and years; listings: two '
          'or three zones, two links and two policies with symbolic names, '
          'letters and formats in every source order; the three scopes, all '
          'languages and actions')
OUTSIDE = ('dictionary order (defined by the language); more than three '
           'symbolic names; the order of the JSON maps of zones, links and '
           'policies, which follow the source')
COVERS = ['permuted', 'two-notes', 'two-policies', 'merged', 'removed',
          'abort', 'swapped', 'listing', 'letters', 'formats', 'removed-list',
          'fragments', 'go-tables', 'blocks']
ASSUMPTIONS = ['sorted(), min(), max(), set operations and len() of a set do '
               'not depend on its iteration order (except with a key)']
LANGS = ['python', 'arduino', 'c', 'go']


class Order:
    """Iteration order of sets: as inserted, or arbitrary."""

    def __init__(self, cx, on):
        self.cx, self.on = cx, on

    def __enter__(self):
        if self.cx.sym:
            E.set_orders = self.on
            E.perm_log.clear()

    def __exit__(self, *a):
        if self.cx.sym:
            E.set_orders = True


def tree_eq(cx, a, b, where=''):
    """Equality of JSON trees, key order included."""
    if hasattr(a, 'keys') and hasattr(b, 'keys'):
        ka, kb = list(a.keys()), list(b.keys())
        if len(ka) != len(kb):
            return False
        return And(*[And(eq(x, y), tree_eq(cx, a[x], b[y]))
                     for x, y in zip(ka, kb)])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return And(*[tree_eq(cx, x, y) for x, y in zip(a, b)])
    if hasattr(a, 'keys') or hasattr(b, 'keys') or \
            isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    return eq(a, b)


def compare(cx, a, b, what, js=True):
    cx.check(a.kind() == b.kind(), 'one run aborts' + what)
    if a.exc is not None or b.exc is not None:
        cx.cover('abort')
        return
    fa, fb = sorted(a.files), sorted(b.files)
    cx.check(fa == fb, 'different files' + what)
    for f in fa:
        if f in b.files:
            cx.check(eq(a.files[f], b.files[f]), f + ' differs' + what)
    if js:
        cx.check((a.json is None) == (b.json is None), 'no database' + what)
        if a.json is not None and b.json is not None:
            for k in a.json:
                cx.check(k in b.json and tree_eq(cx, a.json[k], b.json[k]),
                         'the database differs in %s%s' % (k, what))


DIGESTS = []            # outputs of a concrete run (see replay)


def digest(res):
    h = hashlib.sha256()
    h.update(repr((res.kind(), sorted(res.files.items()),
                   json.dumps(res.json))).encode())
    DIGESTS.append(h.hexdigest())


def twice(cx, lines, opts, two=False, **kw):
    """The same run with inserted and with arbitrary set orders."""
    with Order(cx, False):
        a = run_main(cx, lines, opts, name='a', **kw)
    if not cx.sym:
        digest(a)
        return a
    E.order_budget = 2 if two else 1
    with Order(cx, 'reverse' if cx.flag('all-reversed') else True):
        b = run_main(cx, lines, opts, name='b', observe=False, **kw)
    cx.cover('permuted', any(n > 1 for n in E.perm_log))
    compare(cx, a, b, ' for another set order')
    return a


# ---------------------------------------------------------------------------
# arbitrary set orders
# ---------------------------------------------------------------------------

def rules(p, at='2:00', save='1:00', on='8', letter='D', f=1998, t=2004):
    return [rule_line(p, f, t, 3, on, at, save, letter),
            rule_line(p, 1997, 2003, 10, '8', '2:00', '0', 'S')]


def noted(cx, scope, n):
    """Zones with several notes of their own and of n policies."""
    k = {'basic': 60, 'extended': 60, 'complete': 1}[scope]
    L = []
    pols = ['Q', 'P', 'R'][:n]
    for i, p in enumerate(pols):
        m = 20 + cx.int('s' + p, 0, 1)
        # AT with seconds, SAVE not a multiple of the granularity
        L += rules(p, at=cat('2:00:', fmt(m)), save='0:50')
    z = ['Z/B', 'Z/A'] if n < 3 else ['Z/B']
    for i, name in enumerate(z):
        eras = []
        if scope != 'basic':
            sec = cx.int('u%d' % i, 30, 31)
            eras.append((cat('1:00:', fmt(sec)), '0:25', 'X',
                         until(2001, 1, 1, '0:00:30')))
        for j, p in enumerate(pols):
            eras.append(('1:00', p, 'A%s', until(2002 + j))
                        if j < n - 1 else ('1:00:10', p, 'A%s'))
        L += zone_lines(name, eras)
    L += [link_line('Z/B', 'L/B')]
    return L


def removed(cx, scope):
    """Zones, links and policies with several reasons for their removal."""
    L = []
    h = cx.int('h', 25, 27)
    y = cx.int('y', 1999, 2001)
    L += [rule_line('S', 1998, 2004, 3, 'Sun>=30', cat(fmt(h), ':00'),
                    '1:00', 'D'),
          rule_line('S', y, 2003, 10, 'Xun>=8', '2:00x', '0:50', 'S'),
          rule_line('S', y, 2003, 12, 'Sun>=29', '2:00:30', '7:00', 'S')]
    L += rules('Q', at='2:00:30')
    # several reasons over the stages, several eras
    L += zone_lines('Z/C', [('1:00', 'S', 'A%s', until(2001)),
                            ('99:00', 'Q', 'B', until(2002)),
                            ('1:00', 'Missing', 'C')])
    L += zone_lines('Z/B', [('1:00', 'Gone', 'A', until(2001)),
                            ('2:00', 'S', 'B%s', until(2002)),
                            ('3:00', 'Absent', 'C', until(2003)),
                            ('3:00', 'Q', 'C%s')])
    L += zone_lines('Z/A', [('1:00', 'Q', 'A%s')])
    L += [link_line('Z/B', 'L/B'), link_line('Z/None', 'L/A')]
    return L


def order(cx, kind, scope, n=2, langs='python', actions='zonedb,json',
          strict=False, two=False):
    if kind == 'noted':
        L = noted(cx, scope, n)
    else:
        L = removed(cx, scope)
    res = twice(cx, L, two=two, opts=default_opts(
        scope, 2000, 2030, strict=strict, nostrict=not strict,
        actions=actions, languages=langs,
        skip_bufestimator=not ({'arduino', 'c'} & set(langs.split(',')))))
    if res.exc is None and res.json is not None:
        J = res.json
        lists(cx, J)
        cx.cover('two-notes', any(len(J['notable_policies'][p]) > 1
                                  for p in J['notable_policies']))
        cx.cover('two-policies', any(len(J['zones_to_policies'][z]) > 1
                                     for z in J['zones_to_policies']))
        cx.cover('merged', len(J['merged_notable_zones']) > 0)
        cx.cover('removed', len(J['removed_zones']) > 0)


def include(cx, scope):
    """The include list is a set as well."""
    names = ['Z/A', 'Z/B', 'Z/C']
    L = []
    for i, z in enumerate(names):
        L += zone_lines(z, [('%d:00' % (i + 1), '-', 'F')])
    L += [link_line('Z/A', 'L/A'), link_line('Z/B', 'L/B')]
    inc = [n for n in names + ['L/A', 'L/B'] if cx.flag('i' + n)]
    twice(cx, L, default_opts(scope, 2000, 2030,
                              actions='zonedb,json,zonelist',
                              languages='go'), include=inc)


# ---------------------------------------------------------------------------
# sorted listings
# ---------------------------------------------------------------------------

def increasing(cx, names, what):
    for a, b in zip(names, names[1:]):
        cx.check(a < b, what + ' is not sorted')


def lists(cx, J):
    """Listings of the database."""
    for k in ('removed_zones', 'removed_links', 'removed_policies',
              'notable_zones', 'notable_links', 'notable_policies',
              'merged_notable_zones', 'zone_ids', 'link_ids'):
        increasing(cx, list(J[k].keys()), k)
        if k.startswith('removed') and len(J[k]):
            cx.cover('removed-list')
        if k in ('merged_notable_zones', 'zone_ids', 'link_ids'):
            continue
        for n in J[k]:
            increasing(cx, list(J[k][n]), 'reasons in ' + k)
    for z in J['zones_to_policies']:
        increasing(cx, list(J['zones_to_policies'][z]), 'policies of a zone')
    for z in J['merged_notable_zones']:
        for e in J['merged_notable_zones'][z]:
            if hasattr(e, 'keys'):
                increasing(cx, list(e.keys()), 'policies in the notes')
                for p in e:
                    increasing(cx, list(e[p]), 'notes of a policy')
    for k in ('letters_map', 'formats_map', 'fragments_map'):
        m = J[k]
        if m:
            ks = list(m.keys())
            increasing(cx, ks, k)
            cx.cover(k.split('_')[0])
    for k in ('go_letters_map', 'go_formats_map', 'go_names_map'):
        m = J[k]
        if m:
            # the sentinel comes last
            increasing(cx, list(m.keys())[:-1], k)
            cx.cover('go-tables')


def blocks(cx, res, lang, zones, links, pols):
    """Order of the blocks of the generated sources."""
    if lang == 'python':
        P, I = res.files['zone_policies.py'], res.files['zone_infos.py']
        pre = ('ZONE_POLICY_', 'ZONE_INFO_')
        ext = 'py'
    elif lang in ('arduino', 'c'):
        e = 'cpp' if lang == 'arduino' else 'c'
        P, I = res.files['zone_policies.' + e], res.files['zone_infos.' + e]
        pre = ('kZonePolicy', 'kZone') if lang == 'arduino' else \
            ('kzonedbZonePolicy', 'kzonedbZone')
        ext = e
    else:
        return
    for text, names, q in ((P, pols, pre[0]), (I, zones, pre[1]),
                           (I, links, pre[1])):
        F = File(text, ext)
        at = []
        for n, _ in F.pairs:
            for x in names:
                if eq_now(n, cat(q, sym(x))):
                    at.append(x)
        cx.check(len(at) == len(names), 'number of blocks')
        increasing(cx, at, 'order of the blocks')
        cx.cover('blocks')


def eq_now(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else bool(r)


def sym(n):
    return n.replace('/', '_')


def listing(cx, lang, scope, kind):
    c = ['V', 'W']
    zn = [cat('A/', c[0]), cat('A/', c[1])]
    ln = ['L/X', 'L/Y']
    pn = ['P', 'Q']
    letters = ['D', 'E']
    fs = ['F%s', 'G%s']
    if kind == 'zones':
        zn = [cat('A/', cx.char('z%d' % i, 65, 90)) for i in range(2)]
        cx.assume(zn[0] != zn[1])
    elif kind == 'policies':
        pn = [cx.char('p%d' % i, 65, 90) for i in range(2)]
        cx.assume(pn[0] != pn[1])
    elif kind == 'links':
        ln = [cat('L/', cx.char('l%d' % i, 65, 90)) for i in range(2)]
        cx.assume(ln[0] != ln[1])
    elif kind == 'letters':
        letters = [cx.char('d%d' % i, 65, 90) for i in range(2)]
    elif kind == 'formats':
        fs = [cat(cx.char('f%d' % i, 65, 90), '%s') for i in range(2)]
    elif kind == 'fragments':
        # four names share each fragment
        zn = [cat('Aaaa/Bbbb/', x) for x in 'VW']
        ln = [cat(a, '/Bbbb/', x) for a, x in (
            ('Aaaa', 'X'), ('Aaaa', 'Y'))]
    R = []
    for i in range(2):
        R.append([rule_line(pn[i], 1998, 2010, 3, '8', '2:00:30', '0:50',
                            letters[i]),
                  rule_line(pn[i], 1998, 2010, 10, '8', '2:00', '0', 'S')])
    Z = [zone_lines(zn[i], [('1:00', pn[i], fs[i])]) for i in range(2)]
    bad = [zone_lines('X/B', [('99:00', '-', 'B')]),
           zone_lines('X/A', [('98:00', '-', 'A')])] \
        if scope == 'basic' else [[], []]
    K = [[link_line(zn[i], ln[i])] for i in range(2)]
    if scope == 'basic':
        K.append([link_line('X/B', 'M/B')])

    def source(rev):
        o = (lambda x: x[::-1]) if rev else (lambda x: x)
        L = []
        for part in (R, Z, bad, K):
            for x in o(part):
                L += x
        return L

    opts = default_opts(
        scope, 2000, 2030, strict=False, nostrict=True,
        actions='zonedb,json,zonelist', languages=lang,
        skip_bufestimator=lang not in ('arduino', 'c'))
    with Order(cx, False):
        a = run_main(cx, source(False), opts, name='a')
        b = run_main(cx, source(True), opts, name='b')
    cx.cover('swapped')
    compare(cx, a, b, ' for another source order', js=False)
    if a.exc is None:
        lists(cx, a.json)
        blocks(cx, a, lang, zn, ln, pn)
        names = [x for x in lines_of(a.files['zones.txt'])
                 if not x.startswith('#')]
        increasing(cx, names, 'zonelist')
        cx.check(len(names) == 2, 'zonelist entries')
        cx.cover('listing')


def lines_of(t):
    ls = t.split('\n')
    return [x for x in ls if len(x)]


# ---------------------------------------------------------------------------
# replay: fresh processes with different string hashes
# ---------------------------------------------------------------------------

SEEDS = 24


def replay(c, job):
    from harness import run
    if os.environ.get('VERIF_C25_CHILD'):
        DIGESTS.clear()
        cx, st, msg = run.run_concrete(job, c['values'])
        return 0, 'DIGEST %s %s' % (st, ' '.join(DIGESTS))
    cx, st, msg = run.run_concrete(job, c['values'])
    if st == 'oracle' or (st == 'done' and cx.failed):
        return 1, 'FAILS: %s' % (msg or cx.failed[:3])
    with tempfile.NamedTemporaryFile('w', suffix='.json', prefix='vf.',
                                     delete=False) as h:
        json.dump(c, h)
    out = {}
    try:
        ps = []
        for s in range(SEEDS):
            ps.append((s, subprocess.Popen(
                [sys.executable, '-m', 'harness.replay', h.name],
                env=dict(os.environ, VERIF_C25_CHILD='1',
                         PYTHONHASHSEED=str(s)),
                cwd=os.path.dirname(os.path.dirname(os.path.dirname(
                    os.path.abspath(__file__)))),
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                text=True)))
            if len(ps) == 8 or s == SEEDS - 1:
                for k, p in ps:
                    txt = p.communicate()[0]
                    d = [x for x in txt.split('\n') if x.startswith('DIGEST')]
                    if d:
                        out.setdefault(d[0], k)
                ps = []
            if len(out) > 1:
                break
    finally:
        os.unlink(h.name)
    if len(out) > 1:
        return 1, 'FAILS: output differs between PYTHONHASHSEED=%s' % (
            ' and '.join(str(x) for x in sorted(out.values())[:2]))
    return 0, 'holds: same output for %d hash seeds' % SEEDS


def jobs(tier):
    full = tier == 'thorough'
    out = []

    def add(name, fn, **k):
        out.append(Job(name, fn, set_orders=True, validate=0
                       if fn is not listing else None, **k))
    for scope in ('basic', 'extended', 'complete'):
        for lang in LANGS:
            add('noted-%s-%s' % (scope, lang), order, kind='noted',
                scope=scope, langs=lang, actions='zonedb,json', two=True,
                budget=300)
            if full or scope == 'extended' or lang == 'python':
                add('noted3-%s-%s' % (scope, lang), order, kind='noted',
                    scope=scope, langs=lang, n=3, two=full, budget=600)
    for lang in LANGS:
        for strict in (False, True):
            add('removed-%s-%s' % (lang, strict), order, kind='removed', two=True,
                scope='basic', langs=lang, strict=strict,
                actions='zonedb,json,zonelist')
    for scope in ('basic', 'extended'):
        add('include-' + scope, include, scope=scope)
    for scope in ('basic', 'extended', 'complete'):
        for lang in LANGS:
            for kind in ('zones', 'policies', 'links', 'letters', 'formats',
                         'fragments'):
                if full or scope == 'extended' or \
                        (scope == 'basic' and lang != 'c') or \
                        kind == 'fragments':
                    add('list-%s-%s-%s' % (kind, scope, lang), listing,
                        kind=kind, scope=scope, lang=lang)
    return out
