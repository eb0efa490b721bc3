"""C29: every output states what it was compiled from."""
from harness.ctx import *
from harness import db, env
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *
from harness.text import File, Bad, num as value

BOUNDS = ('versions YYYYx of every year 2000..2099 and letter, followed by up '
          'to one more letter; every window within 1..9999 (complete scope; '
          'basic and extended from their first year on, tiny years within '
          'reach of the base year); base years; strict and compress on or '
          'off; namespaces of up to three letters; '
          'rule and UNTIL years which decide what is truncated; all '
          'languages, all files')
OUTSIDE = ('versions that are not a year and a letter (the number of a '
           'version such as 1999a or HEAD); the estimator years and the '
           'accurate years themselves (C24, C03)')
COVERS = ['python', 'arduino', 'c', 'go', 'zonelist', 'json', 'context',
          'go-context', 'record-context', 'version', 'letter-z', 'invocation',
          'tz-files', 'years', 'truncated-lower', 'truncated-upper',
          'not-truncated', 'namespace', 'strict', 'lax', 'compress',
          'plain', 'low-year', 'high-year', 'json-file', 'estimator',
          'base-year']
LANGS = ['python', 'arduino', 'c', 'go']
FILES = {
    'python': ['zone_policies.py', 'zone_infos.py', 'zone_registry.py'],
    'arduino': ['zone_policies.h', 'zone_policies.cpp', 'zone_infos.h',
                'zone_infos.cpp', 'zone_registry.h', 'zone_registry.cpp'],
    'c': ['zone_policies.h', 'zone_policies.c', 'zone_infos.h',
          'zone_infos.c', 'zone_registry.h', 'zone_registry.c'],
    'go': ['zone_policies.go', 'zone_infos.go', 'zone_registry.go'],
}
TZ_FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
            'etcetera', 'europe', 'northamerica', 'southamerica']


def yes(x):
    return x if isinstance(x, bool) else bool(x)


def pair(a, b):
    return cat('[', text(a), ',', text(b), ']')


def text(v):
    if isinstance(v, (bool, SymBool)):
        return 'True' if yes(v) else 'False'
    return num(v)


def bare(line):
    """A comment line without its marker, None for other lines."""
    for c in ('//', '#'):
        if yes(line.startswith(c)):
            return line[len(c):].strip()
    return None


def after(s, label):
    """What follows a label, None when the line is another one."""
    if len(s) >= len(label) and yes(s.startswith(label)):
        return s[len(label):].strip()
    return None


def header(cx, res, fn, J, argv, version, arduino):
    """The facts in the leading comment of a file."""
    seen = set()
    want = {
        'Requested Years:': pair(J['start_year'], J['until_year']),
        'Accurate Years:': pair(J['start_year_accurate'],
                                J['until_year_accurate']),
        'Original Years:': pair(J['original_min_year'],
                                J['original_max_year']),
        'Generated Years:': pair(J['generated_min_year'],
                                 J['generated_max_year']),
        'Lower/Upper Truncated:': pair(J['lower_truncated'],
                                       J['upper_truncated']),
    }
    if arduino:
        want['Estimator Years:'] = pair(J['estimator_min_year'],
                                        J['estimator_max_year'])
        want['Max Buffer Size:'] = text(J['max_buf_size'])
    lines = []
    for raw in res.files[fn].split('\n'):
        s = bare(raw)
        if s is None:
            break
        lines.append(s)
    cmd = None
    files = None
    for s in lines:
        for label in want:
            r = after(s, label)
            if r is not None:
                cx.check_eq(r, want[label], '%s: %s' % (fn, label))
                seen.add(label)
        i = s.find('releases/tag/')
        if i >= 0:
            cx.check_eq(s[i + len('releases/tag/'):], version,
                        fn + ': version in the header')
            seen.add('version')
        r = after(s, '$ ')
        if r is not None:
            cmd = [r]
        elif cmd is not None and len(s) == 0:
            if 'cmd' not in seen:
                cx.check_eq(join(cmd), join(argv), fn + ': invocation')
                seen.add('cmd')
                cx.cover('invocation')
        elif cmd is not None and 'cmd' not in seen:
            cmd.append(s)
        if isinstance(s, str) and s.lower().endswith('database files'):
            files = []
        elif files is not None and 'files' not in seen:
            if len(s):
                files.append(s)
            elif files:
                cx.check_eq(join(files), ' '.join(TZ_FILES),
                            fn + ': TZ files')
                seen.add('files')
                cx.cover('tz-files')
    cx.check('version' in seen, fn + ': the version is not stated')
    if fn != 'zones.txt':
        cx.check('Requested Years:' in seen, fn + ': the requested years are '
                 'not stated')
        cx.check('Accurate Years:' in seen, fn + ': the accurate years are '
                 'not stated')
        cx.cover('years')
        cx.cover('estimator', 'Estimator Years:' in seen)


def join(xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(' ')
        out.append(x)
    return cat(*out)


def word(v):
    """A declared name or number."""
    return v.name if hasattr(v, 'name') else v


def contexts(cx, res, lang, J, version, base, ns):
    """The run time constants."""
    years = [J['start_year'], J['until_year'], J['start_year_accurate'],
             J['until_year_accurate']]
    if lang == 'python':
        I = File(res.files['zone_infos.py'], 'py')
        cx.check_eq(I.get('TZDB_VERSION').text(), version, 'TZDB_VERSION')
        for n, y in zip(['START_YEAR', 'UNTIL_YEAR', 'START_YEAR_ACCURATE',
                         'UNTIL_YEAR_ACCURATE'], years):
            cx.check(value(I.get(n)) == y, n)
    elif lang in ('arduino', 'c'):
        I = File(res.files['zone_infos.' + ('cpp' if lang == 'arduino'
                                            else 'c')],
                 'cpp' if lang == 'arduino' else 'c')
        found = [x for x in I.pairs if yes(x[0].endswith('ZoneContext'))]
        cx.check_eq([x[0] for x in found],
                    ['kZoneContext' if lang == 'arduino'
                     else cat('k', ns, 'ZoneContext')], 'name of the context')
        c = found[0][1]
        want = list(years)
        if lang == 'arduino':
            want.append(base)
        want.append(J['max_buf_size'])
        for i, y in enumerate(want):
            cx.check(value(c[i]) == y, 'field %d of the context' % i)
        v = I.get('kVersionString' if lang == 'arduino'
                  else 'kAtcTzDatabaseVersion')
        cx.check_eq(v.text(), version, 'version of the context')
        cx.check_eq(word(c[len(want)]), 'kVersionString' if lang == 'arduino'
                    else 'kAtcTzDatabaseVersion', 'version in the context')
        cx.cover('base-year', lang == 'arduino')
    else:
        for fn, nm in (('zone_registry.go', 'DataContext'),
                       ('reader_test.go', 'RecordContext'),
                       ('zone_registry_test.go', 'RecordContext')):
            if fn not in res.files:
                continue
            F = File(res.files[fn], 'go')
            if not F.has(nm):
                continue
            c = F.get(nm)
            for k, y in zip(['StartYear', 'UntilYear', 'StartYearAccurate',
                             'UntilYearAccurate'], years):
                cx.check(value(c.get(k)) == y, nm + '.' + k)
            cx.check(value(c.get('MaxTransitions')) == J['max_buf_size'],
                     nm + '.MaxTransitions')
            cx.check_eq(word(c.get('TzDatabaseVersion')), 'TzDatabaseVersion',
                        nm + '.TzDatabaseVersion')
            cx.cover('go-context' if nm == 'DataContext'
                     else 'record-context')
        F = File(res.files['zone_registry.go'], 'go')
        cx.check_eq(F.get('TzDatabaseVersion').text(), version,
                    'TzDatabaseVersion')
    cx.cover('context')
    names(cx, res, lang, ns)


def names(cx, res, lang, ns):
    """Namespace or package of every file."""
    if lang not in ('arduino', 'go'):
        return
    key = 'package ' if lang == 'go' else 'namespace '
    for fn in sorted(res.files):
        if fn.startswith('zones.'):
            continue
        found = []
        for raw in res.files[fn].split('\n'):
            r = after(raw, key)
            if r is None:
                continue
            r = r.strip()
            if lang == 'arduino':
                if not yes(r.endswith('{')):
                    continue
                r = r[:-1].strip()
            found.append(r)
        want = ['ace_time', ns] if lang == 'arduino' else [ns]
        cx.check_eq(found, want, fn + ': ' + key.strip())
        cx.cover('namespace')


def check(cx, res, opts, lang, version, base=2100, ns='zonedb'):
    J = res.json
    argv = ['tzcompiler.py']
    for x in env._argv(opts, []):
        argv.append(x)
    cx.check_eq(J['tz_version'], version, 'tz_version')
    a, b = opts['start_year'], opts['until_year']
    cx.check(J['start_year'] == a, 'start_year')
    cx.check(J['until_year'] == b, 'until_year')
    cx.check_eq(J['scope'], opts['scope'], 'scope')
    cx.check_eq(list(J['tz_files']), TZ_FILES, 'tz_files')
    cx.check(J['strict'] == (not opts.get('nostrict')), 'strict')
    cx.check(J['compress'] == (not opts.get('nocompress')), 'compress')
    cx.cover('json')
    for fn in FILES[lang] + ['zones.txt']:
        cx.check(fn in res.files, fn + ' is missing')
    for fn in sorted(res.files):
        header(cx, res, fn, J, argv, version, lang in ('arduino', 'c'))
    contexts(cx, res, lang, J, version, base, ns)
    cx.cover(lang)
    cx.cover('zonelist', 'zones.txt' in res.files)


def simple(lang):
    return rules_() + zone_lines('Z/B', [('1:00', 'P', 'A%s')]) + \
        zone_lines('Z/A', [('2:00', '-', 'B')]) + [link_line('Z/B', 'L/A')]


def rules_():
    return [rule_line('P', 1998, 2010, 3, '8', '2:00', '1:00', 'D'),
            rule_line('P', 1998, 2010, 10, '8', '2:00', '0', 'S')]


def go(cx, L, lang, scope, start, until_, version='2024a', **kw):
    opts = default_opts(scope, start, until_, languages=lang,
                        actions='zonedb,json,zonelist', tz_version=version,
                        skip_bufestimator=lang not in ('arduino', 'c'), **kw)
    return opts, run_main(cx, L, opts)


def versions(cx, lang, scope):
    """The version is copied and numbered."""
    y = cx.int('y', 2000, 2099)
    k = cx.int('k', 97, 122)
    tail = cx.text('t', 1, 97, 122) if cx.flag('more') else ''
    c = SymStr.char(k) if isinstance(k, SymInt) else chr(k)
    v = cat(fmt(y), c, tail)
    opts, res = go(cx, simple(lang), lang, scope, 2000, 2003, v)
    if not db.generated(res):
        raise Inconclusive('not generated: %r' % (res.exc,))
    check(cx, res, opts, lang, v)
    cx.check(res.json['tz_version_number'] == (y - 2000) * 100 + k - 96,
             'tz_version_number')
    cx.cover('version')
    cx.cover('letter-z', k == 122)


def windows(cx, lang, scope):
    """Any years.  No zone is left for the estimator to look at."""
    lo = {'basic': 1980, 'extended': 1974, 'complete': 1}[scope]
    a = cx.int('a', lo, 9000)
    b = a + cx.int('n', 1, 100)
    base = a + cx.int('base', 0, 100)
    if lang in ('arduino', 'c'):
        L = []
    else:
        L = zone_lines('Z/A', [('1:00', '-', 'A')]) + \
            zone_lines('Z/B', [('2:00', '-', 'B')])
    kw = dict(tiny_base_year=base)
    opts = default_opts(scope, a, b, languages=lang,
                        actions='zonedb,json,zonelist', **kw)
    res = run_main(cx, L, opts)
    if not db.generated(res):
        raise Inconclusive('not generated: %r' % (res.exc,))
    check(cx, res, opts, lang, '2024a', base)
    cx.cover('low-year', a == 1)
    cx.cover('high-year', a == 9000)


def truncated(cx, lang, scope, full):
    """Years and truncation flags depend on what was dropped."""
    if lang in ('arduino', 'c') and not full:
        # the estimator looks at every year
        f = cx.int('f', 1994, 1998)
        t = cx.int('t', 2000, 2004)
        u = cx.int('u', 1995, 1999)
    else:
        f = cx.int('f', 1985, 2003)
        t = cx.int('t', 2000, 2015)
        cx.assume(f <= t)
        u = cx.int('u', 1995, 2015)
    L = [rule_line('P', f, t, 3, '8', '2:00', '1:00', 'D'),
         rule_line('P', 1981, 1990, 10, '8', '2:00', '0', 'S')]
    if cx.flag('old'):
        L.append(rule_line('P', 1970, 1980, 10, '8', '2:00', '0', 'T'))
    L += zone_lines('Z/B', [('1:00', '-', 'A', until(u)),
                            ('1:00', 'P', 'A%s')])
    start = 1996
    opts, res = go(cx, L, lang, scope, start, start + 6)
    if not db.generated(res):
        return
    check(cx, res, opts, lang, '2024a')
    J = res.json
    cx.cover('truncated-lower', J['lower_truncated'])
    cx.cover('truncated-upper', J['upper_truncated'])
    cx.cover('not-truncated', And(Not(J['lower_truncated']),
                                  Not(J['upper_truncated'])))


def options(cx, lang, scope, n):
    """Names of the database and of the JSON file."""
    ns = cx.text('ns', n, 97, 122)
    jf = cx.choice('jf', ['a.json', 'zonedbx.json'])
    opts, res = go(cx, simple(lang), lang, scope, 2000, 2001, db_namespace=ns,
                   json_file=jf)
    if not db.generated(res):
        raise Inconclusive('not generated: %r' % (res.exc,))
    check(cx, res, opts, lang, '2024a', ns=ns)
    js = [x for x in res.names if yes(x.endswith('.json'))]
    cx.check_eq(js, [cat('out/', jf)], 'name of the JSON file')
    cx.cover('json-file')


def flags(cx, lang, scope):
    """Strictness, compression and base year."""
    lax = cx.flag('lax')
    plain = cx.flag('plain')
    base = cx.int('base', 2030, 2110)
    opts, res = go(cx, zone_lines('Z/B', [('1:00', '-', 'A')]) +
                   zone_lines('Z/A', [('1:00', '-', 'A')]), lang, scope,
                   2000, 2001, nostrict=lax, nocompress=plain,
                   tiny_base_year=base)
    if not db.generated(res):
        raise Inconclusive('not generated: %r' % (res.exc,))
    check(cx, res, opts, lang, '2024a', base)
    cx.cover('strict', not lax)
    cx.cover('lax', lax)
    cx.cover('compress', not plain)
    cx.cover('plain', plain)


def jobs(tier):
    out = []
    for scope in ('basic', 'extended', 'complete'):
        for lang in LANGS:
            s = '%s-%s' % (scope, lang)
            out.append(Job('version-' + s, versions, lang=lang, scope=scope))
            out.append(Job('window-' + s, windows, lang=lang, scope=scope))
            out.append(Job('truncated-' + s, truncated, lang=lang,
                           scope=scope, full=tier == 'thorough'))
            for n in ((1, 2, 3) if tier == 'thorough' else (2,)):
                out.append(Job('names%d-%s' % (n, s), options, lang=lang,
                               scope=scope, n=n))
            out.append(Job('flags-' + s, flags, lang=lang, scope=scope))
    return out
