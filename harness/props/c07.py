"""C07: granularity truncates toward zero; strict mode emits nothing inexact."""
from harness.ctx import *
from harness import db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

FIELDS = ['UNTIL', 'AT', 'STDOFF', 'SAVE', 'RULES']
BOUNDS = ('every in-range signed time with seconds in each field, '
          'granularities 1, 7, 30, 60, 90, 300, 900, 1800, 3600 s, strict and '
          'non-strict, scopes complete, extended and basic; two records per '
          'zone or policy; AT and UNTIL with each suffix')
OUTSIDE = 'other granularities'
COVERS = ['%s-%s' % (f, k) for f in FIELDS
          for k in ('exact', 'truncated', 'strict-removed', 'noted')] + [
    'STDOFF-neg', 'SAVE-neg', 'RULES-neg', 'other-fields', 'suffix']
OPT = {'UNTIL': 'until_at_granularity', 'AT': 'until_at_granularity',
       'STDOFF': 'offset_granularity', 'SAVE': 'delta_granularity',
       'RULES': 'delta_granularity'}


def shaped(cx, field, g, strict, scope, second=False, suffix=''):
    neg = field in ('STDOFF', 'SAVE', 'RULES') and cx.flag('neg')
    hi = {'SAVE': 0 if neg else 2, 'RULES': 0 if neg else 2}.get(field, 25)
    h = cx.int('h', 0, hi)
    m = cx.int('m', 0, 59)
    s = cx.int('s', 0, 59)
    text = hms(neg, h, m, s)
    mag = h * 3600 + m * 60 + s
    v = -mag if neg else mag
    if field == 'RULES':
        cx.assume(mag > 0)
    off, save, rul, at, unt = '6:00', '1:00', '-', '3:00', '3:00'
    if field == 'STDOFF':
        off = text
    elif field == 'SAVE':
        save, rul = text, 'P'
    elif field == 'RULES':
        rul = text
    elif field == 'AT':
        at, rul = cat(text, suffix), 'P'
    else:
        unt = cat(text, suffix)
    to = 2040 if scope == 'basic' else 'max'
    a = ('1:00', '3:00') if second else (save, at)
    b = (save, at) if second else ('1:00', '3:00')
    lines = [rule_line('P', 2000, to, 3, '8', a[1], a[0], 'A'),
             rule_line('P', 2000, to, 5, '8', b[1], b[0], 'B'),
             rule_line('P', 2000, to, 10, '8', '3:00', '0', 'S')]
    es = [('3:00', '-', 'X', until(2005, 3, 9, '3:00') if scope != 'basic'
           and second else until(2005)),
          (off, rul, 'F')]
    if field == 'UNTIL':
        es = [('3:00', '-', 'X', until(2005, 3, 9, unt)), ('6:00', '-', 'F')]
        if second:
            es.insert(0, ('3:00', '-', 'W', until(2004, 3, 9, '3:00')))
    lines += zone_lines('Z/A', es)
    o = {OPT[field]: g, 'until_at_granularity': 1, 'offset_granularity': 1,
         'delta_granularity': 1}
    o[OPT[field]] = g
    res = run_main(cx, lines, default_opts(scope, 2000, 2030, **o,
                                           strict=strict, nostrict=not strict))
    exact = v % g == 0
    t = trunc0(v, g)
    got = db.eras(res, 'Z/A')
    r = None
    if got is not None:
        if field == 'UNTIL':
            e = got[-2]
            r = (e['until_seconds'], e['until_seconds_truncated'])
        elif field == 'STDOFF':
            e = got[-1]
            r = (e['offset_seconds'], e['offset_seconds_truncated'])
        elif field == 'RULES':
            e = got[-1]
            r = (e['era_delta_seconds'], e['era_delta_seconds_truncated'])
        else:
            rs = db.with_letter(db.rules(res, 'P') or [],
                                'B' if second else 'A')
            if len(rs) == 1:
                k = 'delta' if field == 'SAVE' else 'at'
                r = (rs[0][k + '_seconds'], rs[0][k + '_seconds_truncated'])
    if suffix and r is not None:
        cx.cover('suffix')
    if r is None:
        must = And(exact) if strict else True
        if field == 'SAVE':
            # amounts outside the 4-bit code are refused
            must = And(must, between(t, -3600, 3 * 3600 - 1))
        if scope == 'basic' and field in ('RULES', 'UNTIL'):
            must = False
        if strict and 3600 % g != 0:
            must = False        # the other records are not exact either
        cx.check(Not(must), '%s: record is not emitted' % field)
        if strict:
            cx.cover(field + '-strict-removed', Not(exact))
        return
    if strict:
        cx.check(exact, '%s: inexact value emitted in strict mode' % field)
    cx.check(r[0] == v, '%s: source value changed' % field)
    cx.check(r[1] == t, '%s: not truncated toward zero' % field)
    cx.cover(field + '-exact', exact)
    cx.cover(field + '-truncated', Not(exact))
    if neg:
        cx.cover(field + '-neg', And(v < 0, t != v))
    if not strict and db.generated(res):
        # inexact values are noted
        who = res.json['notable_policies' if field in ('AT', 'SAVE')
                       else 'notable_zones']
        nm = 'P' if field in ('AT', 'SAVE') else 'Z/A'
        noted = nm in who and len(who[nm]) > 0
        cx.check(Or(exact, noted), '%s: truncation is not noted' % field)
        if noted:
            cx.cover(field + '-noted', Not(exact))
    # the other granular values are untouched
    if field != 'AT' and field != 'SAVE' and rul != 'P':
        return
    rs = db.rules(res, 'P')
    if rs is not None:
        x = db.with_letter(rs, 'A' if second else 'B')
        if len(x) == 1:
            cx.check(And(x[0]['at_seconds_truncated'] == (
                trunc0(3 * 3600, g) if field == 'AT' else 3 * 3600),
                x[0]['delta_seconds_truncated'] == (
                    trunc0(3600, g) if field == 'SAVE' else 3600)),
                'another record changed')
            cx.cover('other-fields')


def jobs(tier):
    out = []
    gs = [1, 7, 60, 900] if tier == 'quick' else [1, 7, 30, 60, 90, 300, 900,
                                                   1800, 3600]
    for f in FIELDS:
        for g in gs:
            for strict in (False, True):
                for scope in (('complete', 'extended') if f in (
                        'RULES', 'UNTIL') else (
                        'complete', 'extended', 'basic')):
                    if scope != 'complete' and tier == 'quick' and g != 60:
                        continue
                    for second in (False, True):
                        if second and (f in ('STDOFF', 'RULES') or (
                                tier == 'quick' and g not in (60, 900))):
                            continue
                        out.append(Job('%s-%d-%s-%s%s' % (
                            f, g, 'strict' if strict else 'lax', scope,
                            '-2nd' if second else ''), shaped, field=f, g=g,
                            strict=strict, scope=scope, second=second))
    for f in ('AT', 'UNTIL'):
        for x in ('s', 'u'):
            for strict in (False, True):
                for g in ((60,) if tier == 'quick' else (60, 900)):
                    out.append(Job('%s%s-%d-%s' % (
                        f, x, g, 'strict' if strict else 'lax'), shaped,
                        field=f, g=g, strict=strict, scope='extended',
                        suffix=x))
    if tier == 'quick':
        for f in ('SAVE', 'RULES', 'AT', 'UNTIL', 'STDOFF'):
            out.append(Job('%s-3600-lax' % f, shaped, field=f, g=3600,
                           strict=False, scope='complete'))
    return out
