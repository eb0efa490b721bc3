"""C06: clock times and offsets are read exactly or rejected."""
from harness.ctx import *
from harness.ctx import codes
from harness import env, db
from harness.env import run_main, default_opts
from harness.run import Job
from harness.tz import *

FIELDS = ['STDOFF', 'SAVE', 'RULES', 'AT', 'UNTIL']
BOUNDS = ('well-formed texts: every sign, hour 0..99 (1 or 2 digits), minute '
          'and second 0..99 two-digit, all suffixes, in each of the five '
          'fields, scopes basic/extended/complete; arbitrary printable texts '
          'of length 1..4 (thorough 1..7) in each field')
OUTSIDE = 'longer texts, non-ASCII digits'
ASSUMPTIONS = ['[-]h without a colon in RULES may be read as a policy name']
COVERS = ['%s-%s' % (f, k) for f in FIELDS
          for k in ('ok', 'rejected', 'neg', 'text-ok', 'text-rejected')
          if (f, k) not in (('AT', 'neg'), ('UNTIL', 'neg'))] + [
    'AT-s', 'AT-u', 'UNTIL-s', 'UNTIL-u', 'AT-w', 'UNTIL-w']
SPELL = {'AT': ['', 'w', 's', 'u', 'g', 'z', 'x'],
         'UNTIL': ['', 'w', 's', 'u', 'g', 'z', 'x']}


def emitted(cx, field, text, scope, extra=None):
    """Run the tool with the text in the field.  Returns None when the record
    is not emitted, else (seconds, truncated seconds, suffix)."""
    off, save, rul, at, unt = '1:00', '1:00', '-', '2:00', '1:00'
    if field == 'STDOFF':
        off = text
    elif field == 'SAVE':
        save, rul = text, 'P'
    elif field == 'RULES':
        rul = text
    elif field == 'AT':
        at, rul = text, 'P'
    else:
        unt = text
    # basic scope enumerates every year of a rule
    to = 2040 if scope == 'basic' else 'max'
    lines = [rule_line('P', 2000, to, 3, '8', at, save, 'D'),
             rule_line('P', 2000, to, 10, '8', '3:00', '0', 'S')]
    if field == 'UNTIL' and scope != 'basic':
        lines += zone_lines('Z/A', [('0:30', '-', 'X', until(2005, 3, 9, unt)),
                                    (off, '-', 'F')])
    elif field == 'UNTIL':
        lines += zone_lines('Z/A', [('0:30', '-', 'X', until(2005, 1, 1, unt)),
                                    (off, '-', 'F')])
    else:
        lines += zone_lines('Z/A', [('0:30', '-', 'X', until(2005)),
                                    (off, rul, 'F')])
    opts = default_opts(scope, 2000, 2030, until_at_granularity=1,
                        offset_granularity=1, delta_granularity=1)
    res = run_main(cx, lines, opts)
    es = db.eras(res, 'Z/A')
    if es is None:
        return None
    if len(es) != 2:
        return None         # the record itself is not emitted
    e = es[1]
    if field == 'STDOFF':
        return e['offset_seconds'], e['offset_seconds_truncated'], None
    if field == 'RULES':
        if e['policy_name']:
            return None     # a policy reference
        return (e['era_delta_seconds'], e['era_delta_seconds_truncated'],
                None)
    if field == 'UNTIL':
        e = es[0]
        return (e['until_seconds'], e['until_seconds_truncated'],
                e['until_time_suffix'])
    rs = db.rules(res, 'P')
    if rs is None:
        cx.fail('zone emitted without its policy')
        return None
    rs = db.with_letter(rs, 'D')
    if len(rs) != 1:
        # the source rule is not emitted
        return None
    r = rs[0]
    if field == 'SAVE':
        return r['delta_seconds'], r['delta_seconds_truncated'], None
    return r['at_seconds'], r['at_seconds_truncated'], r['at_time_suffix']


def limits(field, v, neg):
    """Condition under which the value must be emitted."""
    if field == 'SAVE':
        return between(v, -3600, 3 * 3600 - 1)
    if field == 'RULES':
        return And(v != 0)
    if field in ('AT', 'UNTIL'):
        return Not(neg) if isinstance(neg, SymBool) else (not neg)
    return True


def shaped(cx, field, scope, parts, suffix=''):
    """[-]h[:mm[:ss]] with symbolic numbers."""
    neg = cx.flag('neg')
    h = cx.int('h', 0, 99)
    m = cx.int('m', 0, 99) if parts >= 2 else None
    s = cx.int('s', 0, 99) if parts >= 3 else None
    text = cat(hms(neg, h, m, s), suffix)
    got = emitted(cx, field, text, scope)
    mag = h * 3600 + (m or 0) * 60 + (s or 0) if parts > 1 else h * 3600
    if parts == 2:
        mag = h * 3600 + m * 60
    elif parts == 3:
        mag = h * 3600 + m * 60 + s
    v = -mag if neg else mag
    ok = And(h <= 25, (m <= 59) if parts >= 2 else True,
             (s <= 59) if parts >= 3 else True)
    if field in ('AT', 'UNTIL'):
        ok = And(ok, Or(v >= 0) if neg else True)
    if suffix == 'x':
        ok = False
    if got is None:
        must = And(ok, limits(field, v, neg))
        if suffix in ('g', 'z') or (field == 'RULES' and (
                parts == 1 or scope == 'basic')):
            must = False
        if scope == 'basic' and field == 'UNTIL':
            must = False
        cx.check(Not(must), '%s: a valid time is not emitted' % field)
        cx.cover('%s-rejected' % field)
        return
    sec, tr, suf = got
    cx.check(ok, '%s: an invalid time is emitted' % field)
    cx.check(Implies(ok, And(sec == v, tr == v)),
             '%s: emitted as another value' % field)
    if field in ('AT', 'UNTIL'):
        want = {'': 'w', 'g': 'u', 'z': 'u'}.get(suffix, suffix)
        cx.check_eq(suf, want, '%s: time reference' % field)
        cx.cover('%s-%s' % (field, want))
    cx.cover('%s-ok' % field)
    if neg and field not in ('AT', 'UNTIL'):
        cx.cover('%s-neg' % field, v < 0)


def read_text(cs, suffixes):
    """Reads a text by the documented grammar; forks on characters.

    Returns (ok, seconds, reference, strict): strict texts must be read."""
    ref = 'w'
    i, n = 0, len(cs)
    if suffixes and n:
        for ch in 'wsugz':
            if cs[-1] == ord(ch):
                ref = {'g': 'u', 'z': 'u'}.get(ch, ch)
                n -= 1
                break
    neg = False
    if n and cs[0] == 45:
        neg = True
        i = 1
        if n == 1:
            return True, 0, ref, False      # '-' alone denotes zero
    fields, cur, digits = [], 0, 0
    while i < n:
        c = cs[i]
        if c == 58:
            if digits == 0:
                return False, 0, ref, False
            fields.append((cur, digits))
            cur, digits = 0, 0
        elif And(48 <= c, c <= 57):
            cur = cur * 10 + (c - 48)
            digits += 1
        else:
            return False, 0, ref, False
        i += 1
    if digits == 0:
        return False, 0, ref, False
    fields.append((cur, digits))
    if len(fields) > 3:
        return False, 0, ref, False
    v = 0
    ok = fields[0][0] <= 25
    for k, (x, d) in enumerate(fields):
        v = v * 60 + x
        if k:
            ok = And(ok, x <= 59)
    for _ in range(3 - len(fields)):
        v = v * 60
    strict = (fields[0][1] <= 2 and all(d == 2 for _, d in fields[1:])) \
        and len(fields)
    return ok, (-v if neg else v), ref, strict


def freetext(cx, field, n, scope='complete'):
    text = cx.text('t', n, exclude='#')
    got = emitted(cx, field, text, scope)
    sfx = field in ('AT', 'UNTIL')
    ok, v, ref, strict = read_text(codes(text), sfx)
    if sfx:
        ok = And(ok, v >= 0)
    if got is None:
        must = And(ok, limits(field, v, False)) if strict else False
        if (field == 'RULES' and strict < 2) or (sfx and ref == 'u'):
            must = False
        cx.check(Not(must), '%s: a valid time is not emitted' % field)
        cx.cover('%s-text-rejected' % field)
        return
    sec, tr, suf = got
    cx.check(ok, '%s: malformed text is emitted' % field)
    cx.check(Implies(ok, And(sec == v, tr == v)),
             '%s: text emitted as another value' % field)
    if sfx:
        cx.check_eq(suf, ref, '%s: time reference' % field)
    cx.cover('%s-text-ok' % field)


def jobs(tier):
    out = []
    for f in FIELDS:
        for scope in ('basic', 'extended', 'complete'):
            for parts in (1, 2, 3):
                for s in SPELL.get(f, ['']):
                    if s in 'gzx' and s and scope != 'complete':
                        continue
                    out.append(Job('%s-%s-%d%s' % (f, scope, parts, s),
                                   shaped, field=f, scope=scope, parts=parts,
                                   suffix=s))
        for n in range(1, (4 if tier == 'quick' else 7) + 1):
            out.append(Job('%s-text-%d' % (f, n), freetext, field=f, n=n))
    return out
