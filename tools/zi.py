"""Expands /usr/share/zoneinfo/tzdata.zi to the raw TZDB file syntax."""
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
       'Nov', 'Dec']
FULL = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
        'August', 'September', 'October', 'November', 'December']
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday']


def month(x):
    return MON[[f.lower().startswith(x.lower()) for f in FULL].index(True)]


def day(x):
    def wd(t):
        return [d for d in DAYS if d.lower().startswith(t.lower())][0][:3]
    if x.startswith('last'):
        return 'last' + wd(x[4:])
    for op in ('>=', '<='):
        if op in x:
            a, b = x.split(op)
            return wd(a) + op + b
    return x


def until(f):
    f = list(f)
    if len(f) > 1:
        f[1] = month(f[1])
    if len(f) > 2:
        f[2] = day(f[2])
    return f


def rule(x):
    return x + ':00' if x.lstrip('-').isdigit() else x


def expand(path='/usr/share/zoneinfo/tzdata.zi'):
    out = []
    for line in open(path, encoding='utf-8'):
        line = line.split('#')[0].rstrip()
        if not line:
            continue
        f = line.split()
        if f[0] == 'R':
            to = {'o': 'only', 'ma': 'max'}.get(f[3], f[3])
            out.append('Rule\t%s\t%s\t%s\t-\t%s\t%s\t%s\t%s\t%s' % (
                f[1], f[2], to, month(f[5]), day(f[6]), f[7], f[8], f[9]))
        elif f[0] == 'Z':
            out.append('Zone\t' + '\t'.join(f[1:3] + [rule(f[3])] + f[4:5]
                                           + until(f[5:])))
        elif f[0] == 'L':
            out.append('Link\t' + '\t'.join(f[1:]))
        else:
            out.append('\t\t\t' + '\t'.join(f[:1] + [rule(f[1])] + f[2:3]
                                          + until(f[3:])))
    return out
