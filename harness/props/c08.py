"""C08: Arduino and C time codes decode back to the exact values."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

BOUNDS = ('every AT, UNTIL (0:00:00..25:59:59 with each suffix), STDOFF '
          '(-25:59:59..25:59:59), SAVE and fixed RULES (-3:59:59..3:59:59), '
          'granularities 1, 60, 900 and the presets, all scopes, languages '
          'arduino and c; first and later records; 255 to 257 letters, rules '
          'of a policy, eras of a zone')
OUTSIDE = 'other granularities'
FIELDS = ['AT', 'UNTIL', 'STDOFF', 'SAVE', 'RULES']
COVERS = ['%s-%s' % (f, k) for f in FIELDS for k in ('low', 'high')] + [
    'AT-abort', 'UNTIL-abort', 'STDOFF-abort', 'SAVE-abort', 'RULES-abort',
    'negative', 'suffix-s', 'suffix-u', 'rem-nonzero', 'too-many',
    'just-fits']
SUFFIX = {'': 0, 'w': 0, 's': 16, 'u': 32}


def nib(v):
    """(high part, low nibble) of an unsigned byte."""
    return v // 16, v % 16


def value(rec, key, high, suffix_of):
    """Decodes an AT/UNTIL; returns (seconds, suffix code, fits)."""
    if high:
        c, m = rec[key + '_time_seconds_code'], \
            rec[key + '_time_seconds_modifier']
        r = rec[key + '_time_seconds_remainder']
        unit, rem, top = 15, 1, 65535
    else:
        c, m = rec[key + '_time_code'], rec[key + '_time_modifier']
        r = rec[key + '_time_minute']
        unit, rem, top = 900, 60, 255
    hi, lo = nib(m)
    fits = And(between(c, 0, top), between(m, 0, 255), lo == r,
               between(lo, 0, 14))
    return c * unit + lo * rem, hi * 16, fits


def rule_delta(r, high):
    if high:
        v = r['delta_minutes']
        return v * 60, between(v, -128, 127)
    e = r['delta_code_encoded']
    return (e - 4) * 900, And(between(e, 0, 15), r['delta_code'] == e - 4)


def era_values(e, high):
    """(offset seconds, delta seconds, fits)"""
    if high:
        c, r = e['offset_seconds_code'], e['offset_seconds_remainder']
        v = e['delta_minutes']
        return c * 15 + r, v * 60, And(
            between(c, -32768, 32767), between(r, 0, 14),
            between(v, -128, 127))
    c, x = e['offset_code'], e['delta_code_encoded']
    hi, lo = nib(x)
    return c * 900 + hi * 60, (lo - 4) * 900, And(
        between(c, -128, 127), between(x, 0, 255), hi == e['offset_minute'],
        between(hi, 0, 14), e['delta_code'] == lo - 4)


def shaped(cx, field, scope, lang, g, strict):
    high = scope == 'complete'
    neg = field in ('STDOFF', 'SAVE', 'RULES') and cx.flag('neg')
    hi = 3 if field in ('SAVE', 'RULES') else 25
    h = cx.int('h', 0, hi)
    m = cx.int('m', 0, 59)
    s = cx.int('s', 0, 59)
    mag = h * 3600 + m * 60 + s
    v = -mag if neg else mag
    if field == 'RULES':
        cx.assume(mag > 0)
    text = hms(neg, h, m, s)
    sfx = ''
    if field in ('AT', 'UNTIL'):
        sfx = cx.choice('sfx', ['', 'w', 's', 'u'])
        if scope == 'basic' and field == 'UNTIL':
            return
        text = cat(text, sfx)
    save, rul, at, off = '1:00', '-', '2:00', '6:00'
    es = []
    if field == 'SAVE':
        save, rul = text, 'P'
    elif field == 'AT':
        at, rul = text, 'P'
    elif field == 'RULES':
        rul = text
    elif field == 'STDOFF':
        off = text
    else:
        es = [('2:00', '-', 'W', until(2001, 3, 4, '2:00')),
              ('3:00', '-', 'X', until(2005, 3, 9, text))]
    es += [(off, rul, 'F')]
    to = 2040 if scope == 'basic' else 'max'
    lines = [rule_line('P', 2000, to, 3, '8', at, save, 'A'),
             rule_line('P', 2000, to, 10, '8', '3:00s', '0', 'S'),
             rule_line('P', 1990, 1991, 5, '8', '3:00u', '0:30', 'B')]
    lines += zone_lines('Z/A', es)
    o = {}
    if g:
        o = {'until_at_granularity': g, 'offset_granularity': g,
             'delta_granularity': g}
    res = run_main(cx, lines, default_opts(scope, 2000, 2030, languages=lang,
                                           strict=strict, nostrict=not strict,
                                           **o))
    gu, go, gd = (g, g, g) if g else (
        (1, 1, 60) if high else (60, 60, 900))
    t = trunc0(v, {'AT': gu, 'UNTIL': gu, 'STDOFF': go}.get(field, gd))
    # representable in the record format
    if field in ('AT', 'UNTIL'):
        rep = True if high else t % 60 == 0
    elif field == 'STDOFF':
        rep = between(t, -127 * 900 - 899, 127 * 900 + 899)
        if not high:
            rep = And(rep, t % 60 == 0)
    elif high:
        rep = And(t % 60 == 0, between(t, -128 * 60, 127 * 60 + 59))
    else:
        rep = And(t % 900 == 0, between(t, -3600, 11 * 900))
    if field == 'SAVE':
        rep = And(rep, between(t, -3600, 12 * 900 - 1))
    got = db.eras(res, 'Z/A')
    if got is None:
        must = rep
        if strict:
            must = And(must, t == v)
        if scope == 'basic' and field == 'RULES':
            must = False
        cx.check(Not(must), '%s: a representable value is refused' % field)
        cx.cover(field + '-abort')
        return
    cx.check(rep, '%s: a value that does not fit is emitted' % field)
    e = got[-1]
    o_, d_, fits = era_values(e, high)
    cx.check(fits, 'era fields do not fit')
    cx.check(o_ == (t if field == 'STDOFF' else 6 * 3600), 'STDOFF code')
    cx.check(d_ == (t if field == 'RULES' else 0), 'fixed RULES code')
    for k, e in enumerate(got):
        sec, sf, fits = value(e, 'until', high, None)
        last = k == len(got) - 1
        me = field == 'UNTIL' and k == len(got) - 2
        want = t if me else 0 if last else 7200
        cx.check(fits, 'UNTIL fields do not fit')
        cx.check(sec == want, 'UNTIL code')
        cx.check(sf == (SUFFIX[sfx] if me else 0), 'UNTIL suffix')
    if field in ('AT', 'SAVE'):
        for r in db.rules(res, 'P'):
            dv, fits = rule_delta(r, high)
            cx.check(fits, 'SAVE fields do not fit')
            sec, sf, fits = value(r, 'at', high, None)
            cx.check(fits, 'AT fields do not fit')
            if db.is_anchor(r):
                cx.check(And(dv == 0, sec == 0, sf == 0), 'anchor codes')
            elif r['letter'] == 'A':
                cx.check(dv == (t if field == 'SAVE' else 3600), 'SAVE code')
                cx.check(sec == (t if field == 'AT' else 7200), 'AT code')
                cx.check(sf == SUFFIX[sfx], 'AT suffix')
            elif r['letter'] == 'S':
                cx.check(And(dv == 0, sec == 10800, sf == 16), 'codes of '
                         'another rule')
            else:
                cx.check(And(dv == 1800, sec == 10800, sf == 32), 'codes of '
                         'another rule')
    cx.cover('%s-%s' % (field, 'high' if high else 'low'))
    if neg:
        cx.cover('negative', v < 0)
    if sfx:
        cx.cover('suffix-' + sfx)
    cx.cover('rem-nonzero', t % 900 != 0)


def sizes(cx, kind, scope, lang, full=False):
    """Letters, rules and eras are counted and indexed in one byte."""
    n = cx.choice('n', [254, 255, 256, 257] if full else [255, 256, 257])
    m = cx.int('m', 0, 5)
    out = []
    if kind == 'letters':
        # with the letter of the standard rules
        for i in range(n - 1):
            out.append(rule_line('P', 2000, 2001, 3 + i % 6, '1', '2:00',
                                 '1:00', 'L%03d' % i) if not i % 200 else
                       rule_line('P%d' % (i // 200), 2000, 2001, 3 + i % 6,
                                 '1', cat('2:0', fmt(m)), '1:00',
                                 'L%03d' % i))
        for p in ('P', 'P0', 'P1'):
            out.append(rule_line(p, 1990, 2001, 11, '1', '2:00', '0', '-'))
    elif kind == 'rules':
        # with the anchor
        for i in range(n - 2):
            out.append(rule_line('P', 2000, 2001, 3 + i % 6, fmt(1 + i // 9),
                                 cat('2:0', fmt(m)), '1:00', 'D'))
        out.append(rule_line('P', 1990, 2001, 11, '1', '2:00', '0', 'S'))
    if kind == 'eras':
        out += zone_lines('Z/A', [
            ('1:00', '-', 'E%d' % (i % 3), until(2000, 1 + i // 28,
                                                 1 + i % 28))
            for i in range(n - 1)] + [(cat('2:0', fmt(m)), '-', 'F')])
    else:
        out += zone_lines('Z/A', [
            ('1:00', p, 'E%s', until(2000 + k))
            for k, p in enumerate(['P', 'P0', 'P1'][
                :3 if kind == 'letters' else 1])] + [('2:00', '-', 'F')])
    res = run_main(cx, out, default_opts(scope, 1995, 2030, languages=lang,
                                         actions='zonedb,json',
                                         skip_bufestimator=False))
    if n > 255:
        cx.check(res.exc is not None, '%d %s in one byte' % (n, kind))
        cx.cover('too-many')
        return
    if res.exc is not None:
        cx.fail('%d %s are refused: %r' % (n, kind, res.exc))
        return
    J = res.json
    if kind == 'letters':
        cx.check(len(J['letters_map']) == n, 'number of letters')
        for p in J['policies_map']:
            for r in J['policies_map'][p]['rules']:
                cx.check(between(r['letter_index'], 0, 255), 'letter index')
    elif kind == 'rules':
        cx.check(len(J['policies_map']['P']['rules']) == n, 'rules')
    else:
        cx.check(len(J['zones_map']['Z/A']['eras']) == n, 'eras')
    cx.cover('just-fits')


def jobs(tier):
    out = []
    for kind in ('letters', 'rules', 'eras'):
        for scope in ('complete', 'extended'):
            for lang in ('arduino', 'c'):
                if tier == 'thorough' or (scope == 'complete') == (
                        lang == 'c'):
                    out.append(Job('sizes-%s-%s-%s' % (kind, scope, lang),
                                   sizes, kind=kind, scope=scope, lang=lang,
                                   full=tier == 'thorough'))
    for field in FIELDS:
        for scope in ('complete', 'extended', 'basic'):
            for lang in ('arduino', 'c'):
                for g in (0, 1, 60, 900):
                    for strict in (True, False):
                        if tier == 'quick' and (
                                (lang == 'c' and g) or (g == 60) or
                                (strict and g)):
                            continue
                        out.append(Job('%s-%s-%s-%d-%s' % (
                            field, scope, lang, g,
                            'strict' if strict else 'lax'), shaped,
                            field=field, scope=scope, lang=lang, g=g,
                            strict=strict))
    return out
