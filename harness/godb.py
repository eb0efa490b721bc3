"""Decodes the generated Go database with the documented layouts."""
from harness.ctx import *
from harness.text import *

RULE = 'i2 i2 u1 u1 i1 u1 u2 i1 u1'
POLICY = 'u2 u2'
ERA = 'u2 u1 u1 i2 i2 i1 u1 u1 u1 u2'
INFO = 'u4 u2 u2 u2 u2'


def index(v):
    """A table index as a Python int (forks when symbolic)."""
    return v if isinstance(v, int) else v.conc()


def count(cx, files, pre):
    n = num(files.get('Zone%sCount' % pre))
    size = num(files.get('Zone%sChunkSize' % pre))
    bs = hex_bytes(files.get('Zone%ssData' % pre
                             if pre != 'Policy' else 'ZonePoliciesData'))
    cs = chunks(bs, index(size))
    cx.check(len(cs) == n, 'Zone%sCount differs from the table' % pre)
    return cs


def strings(cx, files, what, width):
    """The strings denoted by XData and XOffsets (without the sentinel)."""
    data = files.get(what + 'Data')
    if not isinstance(data, Str):
        raise Bad(what + 'Data is not a string')
    cs = [c for p in data.pieces for c in (
        chars_of(_norm(p)))]
    off = [num(x) for x in files.get(what + 'Offsets').items]
    for o in off:
        cx.check(And(o >= 0, o < 256 ** width), '%s offset is too large'
                 % what)
    off = [index(o) for o in off]
    out = []
    for a, b in zip(off, off[1:]):
        cx.check(a <= b <= len(cs), '%s offsets are out of order' % what)
        out.append(_norm(cs[a:b]))
    return out


from pysym.strings import _norm, chars_of  # noqa: E402


class GoDb:
    def __init__(self, cx, res):
        P = File(res.files['zone_policies.go'], 'go')
        I = File(res.files['zone_infos.go'], 'go')
        self.letters = strings(cx, P, 'Letter', 1)
        self.formats = strings(cx, I, 'Format', 2)
        self.names = strings(cx, I, 'Name', 2)
        self.rules = [unpack(c, RULE) for c in count(cx, P, 'Rule')]
        self.policies = [unpack(c, POLICY) for c in count(cx, P, 'Policy')]
        self.eras = [unpack(c, ERA) for c in count(cx, I, 'Era')]
        self.infos = [unpack(c, INFO) for c in count(cx, I, 'Info')]
        self.P, self.I = P, I


def pick(cx, table, i, what):
    i = index(i)
    if not 0 <= i < len(table):
        cx.fail('%s index %d of %d' % (what, i, len(table)))
        raise Bad('index')
    return table[i]


def block(cx, table, i, n, what):
    i, n = index(i), index(n)
    if i < 0 or n < 0 or i + n > len(table):
        cx.fail('%s block %d+%d of %d' % (what, i, n, len(table)))
        raise Bad('block')
    return table[i:i + n]


SUFFIX = {'w': 0, 's': 16, 'u': 32}


def suffix_code(s):
    if isinstance(s, str):
        return SUFFIX[s]
    return If(s == 'w', 0, If(s == 's', 16, 32))


def time_ok(code, modifier, seconds, suffix):
    return And(code * 15 + modifier % 16 == seconds, modifier % 16 < 15,
               modifier // 16 * 16 == suffix_code(suffix))


def rule_ok(cx, db, raw, r):
    """Condition: the decoded rule tuple denotes database rule r."""
    fy, ty, m, dow, dom, mod, c, dm, li = raw
    return And(fy == r['from_year'], ty == r['to_year'],
               m == r['in_month'], dow == r['on_day_of_week'],
               dom == r['on_day_of_month'],
               time_ok(c, mod, r['at_seconds_truncated'],
                       r['at_time_suffix']),
               dm * 60 == r['delta_seconds_truncated'],
               pick(cx, db.letters, li, 'letter') == r['letter'])


def short(f):
    return f.replace('%s', '%')


def era_ok(cx, db, raw, e):
    fi, pi, rem, oc, uy, dm, um, ud, mod, uc = raw
    return And(oc * 15 + rem == e['offset_seconds_truncated'],
               rem >= 0, rem < 15,
               uy == e['until_year'], um == e['until_month'],
               ud == e['until_day'],
               dm * 60 == e['era_delta_seconds_truncated'],
               time_ok(uc, mod, e['until_seconds_truncated'],
                       e['until_time_suffix']))
