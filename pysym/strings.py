"""Symbolic strings: sequences of literal text, symbolic characters and
formatted symbolic integers."""
import re as _re
import z3
from .core import (E, SymInt, SymBool, Unsupported, s_and, s_or, s_not, s_if,
                   mkint, deep_sym, is_sym)


class Ch:
    """One symbolic character; code is a SymInt."""
    __slots__ = ('code', 'src')

    def __init__(self, code, src=None):
        self.code = code
        self.src = src      # (Num, index, total) when a digit of a number


_SPEC = _re.compile(r'^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([_,])?'
                    r'(?:\.(\d+))?([a-zA-Z%])?$', _re.S)


class Num:
    """format(value, spec) of a SymInt, kept opaque as long as possible."""
    __slots__ = ('value', 'spec', 'base', 'upper', 'sign', 'alt', 'zero',
                 'width', 'fill', 'align', 'chars', '_exp')

    def __init__(self, value, spec=''):
        self.value = value
        self.spec = spec
        m = _SPEC.match(spec)
        if not m:
            raise Unsupported('format spec %r' % spec)
        fill, align, sign, alt, zero, width, group, prec, ty = m.groups()
        if group or prec or ty not in (None, 'd', 'n', 'x', 'X', 'b', 'o'):
            raise Unsupported('format spec %r' % spec)
        self.base = {None: 10, 'd': 10, 'n': 10, 'x': 16, 'X': 16, 'b': 2,
                     'o': 8}[ty]
        self.upper = ty == 'X'
        self.sign = sign if sign != '-' else None
        self.alt = bool(alt)
        self.width = int(width) if width else 0
        if zero and not align:
            fill, align = '0', '='
        self.fill = fill or ' '
        self.align = align or '>'
        self.zero = bool(zero)
        cs = set('0123456789')
        if self.base == 16:
            cs |= set('ABCDEF' if self.upper else 'abcdef')
        if value.lo is None or value.lo < 0:
            cs.add('-')
        if self.sign:
            cs.add(self.sign)
        if self.alt:
            cs |= set('xXbo0')
        if self.width > 1:
            cs.add(self.fill)
        self.chars = cs
        self._exp = None

    def same_spec(self, o):
        return (self.base, self.upper, self.sign, self.alt, self.width,
                self.fill, self.align) == (o.base, o.upper, o.sign, o.alt,
                                           o.width, o.fill, o.align)

    def expand(self):
        """List of str/Ch (forks over the number of digits and the sign)."""
        if self._exp is not None and self._exp[0] is E.solver:
            return self._exp[1]
        v = self.value
        neg = v < 0
        neg = bool(neg)
        a = -v if neg else v
        base = self.base
        n = 1
        while True:
            if n > 40:
                raise Unsupported('number too long')
            if a < base ** n:
                break
            n += 1
        digs = []
        for i in range(n):
            d = (a // base ** (n - 1 - i)) % base
            if i == 0 and isinstance(d, SymInt):
                # leading digit: no modulus needed
                d = a // base ** (n - 1)
                if isinstance(d, SymInt):
                    d = SymInt(d.e, 0 if n == 1 else 1, base - 1)
            digs.append(d)
        out = []
        for d in digs:
            if isinstance(d, int):
                c = '0123456789abcdef'[d]
                out.append(c.upper() if self.upper else c)
            elif base <= 10:
                out.append(Ch(d + 48))
            else:
                hi = d + (55 if self.upper else 87)
                out.append(Ch(s_if(d < 10, d + 48, hi)))
        pre = ''
        if neg:
            pre = '-'
        elif self.sign:
            pre = self.sign
        if self.alt:
            pre += {16: '0X' if self.upper else '0x', 2: '0b', 8: '0o',
                    10: ''}[base]
        pad = self.width - len(out) - len(pre)
        if pad > 0:
            if self.align == '=':
                out = list(pre) + [self.fill] * pad + out
            elif self.align == '>':
                out = [self.fill] * pad + list(pre) + out
            elif self.align == '<':
                out = list(pre) + out + [self.fill] * pad
            else:
                left = pad // 2
                out = ([self.fill] * left + list(pre) + out
                       + [self.fill] * (pad - left))
        else:
            out = list(pre) + out
        # back references, so that the whole can be collapsed again
        res = []
        t = len(out)
        for i, c in enumerate(out):
            if isinstance(c, str):
                res.append(Ch(ord(c), (self, i, t)))
            else:
                res.append(Ch(c.code, (self, i, t)))
        self._exp = (E.solver, res)
        return res

    def native(self):
        return format(self.value.conc(), self.spec)


def _norm(atoms):
    """atoms: iterable of str / Ch / Num -> native str or SymStr."""
    segs = []
    atoms = list(atoms)
    i = 0
    n = len(atoms)
    buf = []
    sym = False
    while i < n:
        a = atoms[i]
        if isinstance(a, str):
            if a:
                buf.append(a)
            i += 1
            continue
        if isinstance(a, Ch):
            if a.src is not None:
                num, k, t = a.src
                if k == 0 and i + t <= n and all(
                        isinstance(atoms[i + j], Ch)
                        and atoms[i + j].src is not None
                        and atoms[i + j].src[0] is num
                        and atoms[i + j].src[1] == j
                        for j in range(t)):
                    if buf:
                        segs.append(''.join(buf))
                        buf = []
                    segs.append(num)
                    sym = True
                    i += t
                    continue
            c = a.code
            if isinstance(c, int) or (c.lo is not None and c.lo == c.hi):
                buf.append(chr(c if isinstance(c, int) else c.lo))
                i += 1
                continue
        if buf:
            segs.append(''.join(buf))
            buf = []
        segs.append(a)
        sym = True
        i += 1
    if buf:
        segs.append(''.join(buf))
    if not sym:
        return ''.join(segs)
    return SymStr(segs)


def atoms_of(s):
    """native str/SymStr -> list of 1-char str / Ch / Num."""
    if isinstance(s, str):
        return list(s)
    out = []
    for g in s.segs:
        if isinstance(g, str):
            out.extend(g)
        else:
            out.append(g)
    return out


def chars_of(s):
    """native str/SymStr -> list of 1-char str / Ch (numbers expanded)."""
    if isinstance(s, str):
        return list(s)
    out = []
    for g in s.segs:
        if isinstance(g, str):
            out.extend(g)
        elif isinstance(g, Num):
            out.extend(g.expand())
        else:
            out.append(g)
    return out


def code(a):
    return ord(a) if isinstance(a, str) else a.code


def _ceq(a, b):
    """Equality of two characters: bool/SymBool."""
    ca, cb = code(a), code(b)
    if isinstance(ca, int) and isinstance(cb, int):
        return ca == cb
    return ca == cb if isinstance(ca, SymInt) else cb == ca


def _chin(a, chars):
    """Character (atom) in a set of native characters."""
    if isinstance(a, str):
        return a in chars
    if isinstance(a, Num):
        if not (a.chars & set(chars)):
            return False
        raise _NeedExpand()
    c = a.code
    cs = sorted(ord(x) for x in set(chars))
    # compress to ranges
    rs = []
    for x in cs:
        if rs and rs[-1][1] == x - 1:
            rs[-1][1] = x
        else:
            rs.append([x, x])
    return s_or(*[s_and(c >= lo, c <= hi) if lo != hi else c == lo
                  for lo, hi in rs])


class _NeedExpand(Exception):
    pass


WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'
_LOWER = 'abcdefghijklmnopqrstuvwxyz'
_UPPER = _LOWER.upper()
_DIGITS = '0123456789'


def _class_pred(native, chars):
    """Character-class predicate for atoms (native: str method name).
    Symbolic characters are treated as Latin-1 at most."""
    def f(a):
        if isinstance(a, str):
            return getattr(a, native)()
        return _chin(a, chars)
    return f


def _latin(fn):
    return ''.join(chr(i) for i in range(256) if getattr(chr(i), fn)())


class SymStr:
    __slots__ = ('segs',)
    _is_symstr = True

    def __init__(self, segs):
        self.segs = tuple(segs)

    # -- construction
    @staticmethod
    def lift(s):
        return SymStr((s,)) if isinstance(s, str) else s

    @staticmethod
    def char(code_, src=None):
        if isinstance(code_, int):
            return chr(code_)
        return SymStr((Ch(code_, src),))

    @staticmethod
    def num(value, spec=''):
        if isinstance(value, int):
            return format(value, spec)
        return SymStr((Num(value, spec),))

    # -- concretisation
    def conc(self):
        out = []
        for g in self.segs:
            if isinstance(g, str):
                out.append(g)
            elif isinstance(g, Num):
                out.append(g.native())
            else:
                c = g.code
                out.append(chr(c if isinstance(c, int) else c.conc()))
        return ''.join(out)

    def __str__(self):
        return self.conc()

    def __repr__(self):
        return 'SymStr(%r)' % (self.segs,)

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __hash__(self):
        return hash(self.conc())

    def __fspath__(self):
        return self.conc()

    # -- size / access
    def __len__(self):
        return len(chars_of(self))

    def __bool__(self):
        for g in self.segs:
            if g != '' if isinstance(g, str) else True:
                return True
        return False

    def __iter__(self):
        for a in chars_of(self):
            yield a if isinstance(a, str) else _norm([a])

    def __getitem__(self, k):
        if isinstance(k, slice):
            def cc(x):
                return x.conc() if isinstance(x, SymInt) else x
            st, sp, step = cc(k.start), cc(k.stop), cc(k.step)
            if step in (None, 1):
                # cheap prefixes/suffixes of literal text
                if (sp is None and st is not None and st >= 0
                        and self.segs and isinstance(self.segs[0], str)
                        and len(self.segs[0]) >= st):
                    return _norm([self.segs[0][st:]] + list(self.segs[1:]))
                if (st in (None, 0) and sp is not None and sp >= 0
                        and isinstance(self.segs[0], str)
                        and len(self.segs[0]) >= sp):
                    return self.segs[0][:sp]
                if (sp is None and st is not None and st < 0
                        and isinstance(self.segs[-1], str)
                        and len(self.segs[-1]) >= -st):
                    return self.segs[-1][st:]
                if (st in (None, 0) and sp is not None and sp < 0
                        and isinstance(self.segs[-1], str)
                        and len(self.segs[-1]) >= -sp):
                    return _norm(list(self.segs[:-1]) + [self.segs[-1][:sp]])
            return _norm(chars_of(self)[slice(st, sp, step)])
        if isinstance(k, SymInt):
            k = k.conc()
        cs = chars_of(self)
        a = cs[k]
        return a if isinstance(a, str) else _norm([a])

    # -- concatenation
    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return cat(self, o)

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return cat(o, self)

    def __mul__(self, k):
        if isinstance(k, SymInt):
            k = k.conc()
        return cat(*([self] * max(0, k)))

    __rmul__ = __mul__

    def __mod__(self, args):
        return percent(self, args)

    # -- comparison
    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, (str, SymStr)):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __lt__(self, o):
        return str_lt(self, o)

    def __gt__(self, o):
        return str_lt(o, self)

    def __le__(self, o):
        return s_not(str_lt(o, self))

    def __ge__(self, o):
        return s_not(str_lt(self, o))

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def contains(self, sub):
        m = len(sub)
        if m == 0:
            return True
        a = _atoms_for(self, sub)
        out = []
        for i in range(len(a) - m + 1):
            out.append(_match_at(a, i, sub))
        return s_or(*out)

    # -- searching
    def find(self, sub, start=None, end=None):
        cs = chars_of(self)
        m = len(sub)
        lo, hi, _ = slice(start, end).indices(len(cs))
        sub = chars_of(sub)
        for i in range(lo, hi - m + 1):
            if s_and(*[_ceq(cs[i + j], sub[j]) for j in range(m)]):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        cs = chars_of(self)
        m = len(sub)
        lo, hi, _ = slice(start, end).indices(len(cs))
        sub = chars_of(sub)
        for i in range(hi - m, lo - 1, -1):
            if s_and(*[_ceq(cs[i + j], sub[j]) for j in range(m)]):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, *a):
        s = self[slice(*a)] if a else self
        if isinstance(s, str):
            return s.count(sub)
        return len(s.split(sub)) - 1

    def startswith(self, sub, start=0, end=None):
        if isinstance(sub, tuple):
            return s_or(*[self.startswith(x, start, end) for x in sub])
        if start or end is not None:
            t = self[start:end]
            return t.startswith(sub)
        n = len(sub)
        if isinstance(sub, str) and self.segs \
                and isinstance(self.segs[0], str) and len(self.segs[0]) >= n:
            return self.segs[0].startswith(sub)
        cs = chars_of(self)
        if len(cs) < n:
            return False
        sb = chars_of(sub)
        return s_and(*[_ceq(cs[i], sb[i]) for i in range(n)])

    def endswith(self, sub, start=0, end=None):
        if isinstance(sub, tuple):
            return s_or(*[self.endswith(x, start, end) for x in sub])
        if start or end is not None:
            return self[start:end].endswith(sub)
        n = len(sub)
        if n == 0:
            return True
        if isinstance(sub, str) and self.segs \
                and isinstance(self.segs[-1], str) and len(self.segs[-1]) >= n:
            return self.segs[-1].endswith(sub)
        cs = chars_of(self)
        if len(cs) < n:
            return False
        sb = chars_of(sub)
        return s_and(*[_ceq(cs[len(cs) - n + i], sb[i]) for i in range(n)])

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if isinstance(sep, SymStr):
            sep = sep.conc()
        if isinstance(maxsplit, SymInt):
            maxsplit = maxsplit.conc()
        if sep is None:
            return self._split_ws(maxsplit)
        if sep == '':
            raise ValueError('empty separator')
        a = _atoms_for(self, sep)
        m = len(sep)
        out = []
        cur = []
        i = 0
        n = len(a)
        while i < n:
            if (maxsplit < 0 or len(out) < maxsplit) and i + m <= n \
                    and _match_at(a, i, sep):
                out.append(_norm(cur))
                cur = []
                i += m
            else:
                cur.append(a[i])
                i += 1
        out.append(_norm(cur))
        return out

    def _split_ws(self, maxsplit):
        a = _atoms_for(self, WS)
        out = []
        cur = []
        i = 0
        n = len(a)
        while i < n:
            ws = a[i].isspace() if isinstance(a[i], str) else _chin(a[i], WS)
            if ws:
                if cur:
                    out.append(_norm(cur))
                    cur = []
            else:
                if not cur and 0 <= maxsplit == len(out):
                    rest = _norm(a[i:])
                    out.append(rest.rstrip())
                    return out
                cur.append(a[i])
            i += 1
        if cur:
            out.append(_norm(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit is None or maxsplit < 0:
            return self.split(sep)
        if sep is None:
            parts = self.split()
            if len(parts) <= maxsplit + 1:
                return parts
            raise Unsupported('rsplit')
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        return [join(sep, parts[:k])] + parts[k:]

    def partition(self, sep):
        p = self.split(sep, 1)
        if len(p) == 1:
            return (p[0], '', '')
        return (p[0], sep, p[1])

    def rpartition(self, sep):
        p = self.split(sep)
        if len(p) == 1:
            return ('', '', p[0])
        return (join(sep, p[:-1]), sep, p[-1])

    def splitlines(self, keepends=False):
        parts = self.split('\n')
        if keepends:
            r = [cat(p, '\n') for p in parts[:-1]]
            if parts[-1] != '':
                r.append(parts[-1])
            return r
        if parts and isinstance(parts[-1], str) and parts[-1] == '':
            parts.pop()
        return parts

    def _strip(self, chars, left, right):
        if isinstance(chars, SymStr):
            chars = chars.conc()
        a = _atoms_for(self, WS if chars is None else chars)

        def hit(x):
            if chars is None:
                return x.isspace() if isinstance(x, str) else _chin(x, WS)
            return _chin(x, chars)
        i, j = 0, len(a)
        if left:
            while i < j and hit(a[i]):
                i += 1
        if right:
            while j > i and hit(a[j - 1]):
                j -= 1
        return _norm(a[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def replace(self, old, new, count=-1):
        if isinstance(old, SymStr):
            old = old.conc()
        if old == '':
            raise Unsupported('replace of empty string')
        parts = self.split(old, count)
        return join(new, parts)

    # -- case
    def _mapcase(self, lo, hi, d, native):
        out = []
        for g in self.segs:
            if isinstance(g, str):
                out.append(getattr(g, native)())
            elif isinstance(g, Num):
                if g.base <= 10 and not g.alt:
                    out.append(g)
                else:
                    for c in g.expand():
                        out.append(Ch(s_if(s_and(c.code >= lo, c.code <= hi),
                                           c.code + d, c.code)))
            else:
                c = g.code
                _ascii(c)
                r = s_if(s_and(c >= lo, c <= hi), c + d, c)
                out.append(chr(r) if isinstance(r, int)
                           else (g if r is c else Ch(r)))
        return _norm(out)

    def upper(self):
        return self._mapcase(97, 122, -32, 'upper')

    def lower(self):
        return self._mapcase(65, 90, 32, 'lower')

    casefold = lower

    def capitalize(self):
        cs = chars_of(self)
        return cat(_up(_norm(cs[:1])), _lo(_norm(cs[1:])))

    def swapcase(self):
        return self.conc().swapcase()

    def title(self):
        return self.conc().title()

    # -- predicates
    def _all(self, native):
        if not self.segs:
            return False
        chars = _latin(native)
        try:
            out = []
            for a in atoms_of(self):
                if isinstance(a, Num):
                    if native in ('isdigit', 'isdecimal', 'isnumeric',
                                  'isalnum') and a.chars <= set(_DIGITS):
                        continue
                    raise _NeedExpand()
                if isinstance(a, str):
                    out.append(getattr(a, native)())
                else:
                    out.append(_chin(a, chars))
            return s_and(*out)
        except _NeedExpand:
            return s_and(*[getattr(c, native)() if isinstance(c, str)
                           else _chin(c, chars) for c in chars_of(self)])

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isprintable(self):
        return self._all('isprintable')

    def isascii(self):
        return s_and(*[(ord(c) < 128) if isinstance(c, str) else c.code < 128
                       for c in chars_of(self)])

    def _cased(self, mine, other):
        cs = chars_of(self)
        anym = s_or(*[c in mine if isinstance(c, str) else _chin(c, mine)
                      for c in cs])
        noo = s_and(*[s_not(c in other if isinstance(c, str)
                            else _chin(c, other)) for c in cs])
        return s_and(anym, noo)

    def isupper(self):
        return self._cased(_UPPER, _LOWER)

    def islower(self):
        return self._cased(_LOWER, _UPPER)

    # -- formatting helpers
    def join(self, xs):
        return join(self, xs)

    def _pad(self, width, fill, where):
        n = len(self)
        if isinstance(width, SymInt):
            width = width.conc()
        k = width - n
        if k <= 0:
            return self
        if where == 'l':
            return cat(self, fill * k)
        if where == 'r':
            return cat(fill * k, self)
        left = k // 2 + (k & width & 1)
        return cat(fill * left, self, fill * (k - left))

    def ljust(self, w, fill=' '):
        return self._pad(w, fill, 'l')

    def rjust(self, w, fill=' '):
        return self._pad(w, fill, 'r')

    def center(self, w, fill=' '):
        return self._pad(w, fill, 'c')

    def zfill(self, w):
        cs = chars_of(self)
        k = w - len(cs)
        if k <= 0:
            return self
        if cs and _chin(cs[0], '+-'):
            return _norm([cs[0]] + ['0'] * k + cs[1:])
        return _norm(['0'] * k + cs)

    def expandtabs(self, n=8):
        return self.conc().expandtabs(n)

    def encode(self, encoding='utf-8', errors='strict'):
        from .containers import VBytes
        out = []
        for c in chars_of(self):
            if isinstance(c, str):
                out.extend(c.encode(encoding, errors))
            else:
                _ascii(c.code)
                out.append(c.code)
        return VBytes(out, False)

    def format(self, *a, **k):
        return str_format(self.conc(), a, k)

    def format_map(self, m):
        return str_format(self.conc(), (), dict(m))

    def translate(self, table):
        out = []
        for c in chars_of(self):
            if isinstance(c, str):
                out.append(c.translate(table))
                continue
            done = False
            for k, v in dict(table).items():
                if c.code == k:
                    out.append('' if v is None else
                               chr(v) if isinstance(v, int) else v)
                    done = True
                    break
            if not done:
                out.append(c)
        return _norm([x for y in out for x in
                      ([y] if isinstance(y, (str, Ch)) else atoms_of(y))])

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(name)

        def call(*a, **k):
            return getattr(self.conc(), name)(*a, **k)
        return call


def _ascii(c):
    if isinstance(c, SymInt) and (c.hi is None or c.hi > 127):
        E.assume(c <= 127)


def _up(s):
    return s.upper()


def _lo(s):
    return s.lower()


def _atoms_for(s, sub):
    """Atoms of s; numbers are expanded only when sub may match in them."""
    cs = set(sub) if isinstance(sub, str) else None
    out = []
    for g in s.segs:
        if isinstance(g, str):
            out.extend(g)
        elif isinstance(g, Num):
            if cs is None or (g.chars & cs):
                out.extend(g.expand())
            else:
                out.append(g)
        else:
            out.append(g)
    return out


def _match_at(a, i, sub):
    m = len(sub)
    if i + m > len(a):
        return False
    sb = sub if isinstance(sub, str) else chars_of(sub)
    out = []
    for j in range(m):
        x = a[i + j]
        if isinstance(x, Num):
            return False
        r = _ceq(x, sb[j])
        if r is False:
            return False
        out.append(r)
    return s_and(*out)


def cat(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
        elif isinstance(p, SymStr):
            sym = True
            out.extend(p.segs)
        elif isinstance(p, str):
            out.append(str(p))
        else:
            raise TypeError('can only concatenate str (not "%s") to str'
                            % type(p).__name__)
    if not sym:
        return ''.join(out)
    return _norm(out)


def join(sep, xs):
    xs = list(xs)
    for i, x in enumerate(xs):
        if not isinstance(x, (str, SymStr)):
            raise TypeError('sequence item %d: expected str instance, %s found'
                            % (i, type(x).__name__))
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return cat(*out)


def str_eq(a, b):
    """Non-forking where possible equality of two strings."""
    la = list(a.segs) if isinstance(a, SymStr) else ([a] if a else [])
    lb = list(b.segs) if isinstance(b, SymStr) else ([b] if b else [])
    conj = []
    while True:
        while la and la[0] == '':
            la.pop(0)
        while lb and lb[0] == '':
            lb.pop(0)
        if not la or not lb:
            break
        x, y = la[0], lb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            la[0], lb[0] = x[n:], y[n:]
            continue
        if isinstance(x, Num) and isinstance(y, Num) and x.same_spec(y) \
                and (len(la) == len(lb) == 1 or (
                    len(la) > 1 and len(lb) > 1
                    and _nodigit(la[1], x) and _nodigit(lb[1], x))):
            r = x.value == y.value
            if r is False:
                return False
            conj.append(r)
            la.pop(0)
            lb.pop(0)
            continue
        if isinstance(x, Num) or isinstance(y, Num):
            if isinstance(y, Num) and not isinstance(x, Num):
                la, lb = lb, la
                x, y = y, x
            if isinstance(y, str):
                if y[0] not in x.chars:
                    return False
                # leading run of characters the number may produce
                if x.base == 10 and not x.alt:
                    k = 0
                    while k < len(y) and y[k] in x.chars:
                        k += 1
                    last = k == len(y)
                    if (len(la) == 1 or _nodigit(la[1], x)) and (
                            not last or len(lb) == 1 or
                            _nodigit(lb[1], x)):
                        txt = y[:k]
                        try:
                            v = int(txt)
                        except ValueError:
                            return False
                        if format(v, x.spec) != txt:
                            return False
                        r = x.value == v
                        if r is False:
                            return False
                        conj.append(r)
                        la.pop(0)
                        lb[0] = y[k:]
                        continue
            # general: expand
            la = x.expand() + la[1:]
            if isinstance(y, Num):
                lb = y.expand() + lb[1:]
            continue
        # at least one Ch, the other Ch or str
        ca = x if isinstance(x, Ch) else x[0]
        cb = y if isinstance(y, Ch) else y[0]
        r = _ceq(ca, cb)
        if r is False:
            return False
        conj.append(r)
        if isinstance(x, Ch):
            la.pop(0)
        else:
            la[0] = x[1:]
        if isinstance(y, Ch):
            lb.pop(0)
        else:
            lb[0] = y[1:]
    if la or lb:
        rest = la or lb
        for g in rest:
            if g != '':
                return False
    return s_and(*conj)


def _nodigit(seg, num):
    """seg can not start with a character num may produce."""
    if isinstance(seg, str):
        return bool(seg) and seg[0] not in num.chars
    if isinstance(seg, Ch):
        return _chin(seg, ''.join(num.chars)) is False
    return False


def str_lt(a, b):
    if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
        raise TypeError('unorderable types')
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    ca, cb = chars_of(a), chars_of(b)
    alts = []
    pre = []
    for i in range(min(len(ca), len(cb))):
        x, y = code(ca[i]), code(cb[i])
        lt = x < y
        alts.append(s_and(*(pre + [lt])))
        eq = _ceq(ca[i], cb[i])
        if eq is False:
            return s_or(*alts)
        pre.append(eq)
    if len(ca) < len(cb):
        alts.append(s_and(*pre))
    return s_or(*alts)


# ---------------------------------------------------------------------------
# conversion and formatting
# ---------------------------------------------------------------------------


def parse_int(s, base=10):
    """int(SymStr)"""
    segs = s.segs
    if base == 10:
        if len(segs) == 1 and isinstance(segs[0], Num) \
                and segs[0].base == 10 and not segs[0].alt:
            return segs[0].value
        if len(segs) == 2 and segs[0] in ('-', '+') \
                and isinstance(segs[1], Num) and segs[1].base == 10 \
                and not segs[1].alt and segs[1].chars <= set(_DIGITS):
            v = segs[1].value
            return -v if segs[0] == '-' else v
    cs = chars_of(s)
    i, j = 0, len(cs)

    def isws(c):
        return c.isspace() if isinstance(c, str) else bool(_chin(c, WS))
    while i < j and isws(cs[i]):
        i += 1
    while j > i and isws(cs[j - 1]):
        j -= 1
    cs = cs[i:j]
    bad = ValueError('invalid literal for int() with base %d: <symbolic>'
                     % base)
    neg = False
    if cs and _chin(cs[0], '+-'):
        neg = bool(_ceq(cs[0], '-'))
        cs = cs[1:]
    if not cs:
        raise bad
    if base != 10:
        return int(s.conc(), base)
    v = 0
    prev_us = True
    for k, c in enumerate(cs):
        d = c in _DIGITS if isinstance(c, str) else _chin(c, _DIGITS)
        if d:
            v = v * 10 + (code(c) - 48)
            if isinstance(v, SymInt) and not isinstance(c, str):
                pass
            prev_us = False
            continue
        if not prev_us and _ceq(c, '_'):
            prev_us = True
            continue
        raise bad
    if prev_us:
        raise bad
    if isinstance(v, SymInt):
        v = SymInt(v.e, 0, 10 ** len(cs) - 1)
    return -v if neg else v


def fmt_value(v, spec='', conv=-1):
    """format(v, spec) for a possibly symbolic value."""
    if isinstance(spec, SymStr):
        spec = spec.conc()
    if conv == 114 or conv == 97:
        v = sym_repr(v)
    elif conv == 115:
        v = to_str(v)
    if isinstance(v, SymBool):
        v = bool(v)
        return format(v, spec)
    if isinstance(v, SymInt):
        try:
            return SymStr.num(v, spec)
        except Unsupported:
            return format(v.conc(), spec)
    if isinstance(v, SymStr):
        if spec in ('', 's'):
            return v
        m = _SPEC.match(spec)
        if m and m.group(9) in (None, 's'):
            fill, align, sign, alt, zero, width, group, prec, ty = m.groups()
            if prec is not None:
                v = SymStr.lift(v[:int(prec)])
            if not width:
                return v
            fill = fill or ('0' if zero else ' ')
            w = int(width)
            n = len(v)
            if n >= w:
                return v
            k = w - n
            if align in (None, '<'):
                return cat(v, fill * k)
            if align == '>':
                return cat(fill * k, v)
            return cat(fill * (k // 2), v, fill * (k - k // 2))
        return format(v.conc(), spec)
    if spec == '' and (isinstance(v, (list, tuple)) or hasattr(v, '_is_v')) \
            or getattr(v, '_is_vbytes', False):
        return sym_repr(v)
    if spec == '' and isinstance(v, BaseException):
        return to_str(v)
    return format(v, spec)


def to_str(v):
    """str(v)"""
    if isinstance(v, (str, SymStr)):
        return v
    if isinstance(v, SymBool):
        return str(bool(v))
    if isinstance(v, SymInt):
        return SymStr.num(v)
    if isinstance(v, (list, tuple)) or hasattr(v, '_is_v') \
            or getattr(v, '_is_vbytes', False):
        return sym_repr(v)
    if isinstance(v, BaseException) and type(v).__str__ in (
            BaseException.__str__,):
        if len(v.args) == 1:
            return to_str(v.args[0])
        if not v.args:
            return ''
        return sym_repr(v.args)
    return str(v)


def _repr_segs(v):
    """repr of a text; forks only on quotes, backslashes and non-printables
    among symbolic characters."""
    kinds, sq, dq = [], False, False
    for g in v.segs:
        if isinstance(g, str):
            sq = sq or "'" in g
            dq = dq or '"' in g
            kinds.append(None)
        elif isinstance(g, Ch):
            c = g.code
            if not isinstance(c, int):
                if s_and(c >= 32, c <= 126, c != 39, c != 92, c != 34):
                    kinds.append(None)
                    continue
                c = c.conc()
            sq = sq or c == 39
            dq = dq or c == 34
            kinds.append(chr(c))
        else:
            kinds.append(None)
    q = '"' if sq and not dq else "'"

    def lit(t):
        out = []
        for ch in t:
            if ch == '"':
                out.append('"')
            elif ch == "'":
                out.append("'" if q == '"' else "\\'")
            else:
                out.append(repr(ch)[1:-1])
        return ''.join(out)

    out = [q]
    for g, k in zip(v.segs, kinds):
        if k is not None:
            out.append(lit(k))
        elif isinstance(g, str):
            out.append(lit(g))
        else:
            out.append(SymStr([g]))
    out.append(q)
    return cat(*out)


def sym_repr(v):
    if isinstance(v, SymStr):
        return _repr_segs(v)
    if isinstance(v, SymBool):
        return repr(bool(v))
    if isinstance(v, SymInt):
        return SymStr.num(v)
    if isinstance(v, list):
        return cat('[', join(', ', [sym_repr(x) for x in v]), ']')
    if isinstance(v, tuple):
        if hasattr(v, '_fields'):
            return cat(type(v).__name__, '(', join(', ', [
                cat(f, '=', sym_repr(x)) for f, x in zip(v._fields, v)]), ')')
        if len(v) == 1:
            return cat('(', sym_repr(v[0]), ',)')
        return cat('(', join(', ', [sym_repr(x) for x in v]), ')')
    if getattr(v, '_is_v', False):
        return v.sym_repr()
    if getattr(v, '_is_vbytes', False):
        if deep_sym(v):
            return repr(v.native_conc())
        return repr(v.native())
    return repr(v)


_PCT = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?'
                   r'([diouxXeEfFgGcrsa%])')


def percent(fmt, args):
    """fmt % args with symbolic parts."""
    if isinstance(fmt, SymStr):
        if not any(_maybe_pct(g) for g in fmt.segs):
            if isinstance(args, tuple) and args or not isinstance(
                    args, (tuple, dict)) and not hasattr(args, '_is_v'):
                raise TypeError(
                    'not all arguments converted during string formatting')
            return fmt
        # only literal segments carry conversions
        for g in fmt.segs:
            if isinstance(g, Ch) and _chin(g, '%') is not False:
                fmt = fmt.conc()
                return percent(fmt, args)
    segs = fmt.segs if isinstance(fmt, SymStr) else (fmt,)
    out = []
    single = not isinstance(args, tuple)
    mapping = args if (isinstance(args, dict) or hasattr(args, 'keys')) \
        else None
    seq = [args] if single else list(args)
    pos = 0
    used_map = False
    for g in segs:
        if not isinstance(g, str):
            out.append(SymStr((g,)))
            continue
        i = 0
        while True:
            k = g.find('%', i)
            if k < 0:
                out.append(g[i:])
                break
            out.append(g[i:k])
            m = _PCT.match(g, k)
            if not m:
                raise ValueError('unsupported format character')
            key, flags, width, prec, ty = m.groups()
            i = m.end()
            if ty == '%':
                out.append('%')
                continue
            if key is not None:
                v = mapping[key]
                used_map = True
            else:
                if pos >= len(seq):
                    raise TypeError('not enough arguments for format string')
                v = seq[pos]
                pos += 1
            if width == '*':
                width = str(int(v))
                v = seq[pos]
                pos += 1
            if not deep_sym(v) and not isinstance(v, (list, tuple)) \
                    and not hasattr(v, '_is_v'):
                out.append(('%' + flags + (width or '')
                            + ('.' + prec if prec else '') + ty) % (v,))
                continue
            if ty in 'sra':
                t = to_str(v) if ty == 's' else sym_repr(v)
                if prec:
                    t = t[:int(prec)]
                if width:
                    t = fmt_value(SymStr.lift(t),
                                  ('<' if '-' in flags else '>') + width)
                out.append(t)
            elif ty in 'diuxX':
                if isinstance(v, SymStr):
                    raise TypeError('%d format: a real number is required, '
                                    'not str')
                if isinstance(v, SymBool):
                    v = v._ei()
                spec = ''
                if '-' in flags:
                    spec += '<'
                if '+' in flags:
                    spec += '+'
                elif ' ' in flags:
                    spec += ' '
                if '#' in flags:
                    spec += '#'
                if '0' in flags and '-' not in flags:
                    spec += '0'
                spec += (width or '')
                spec += {'i': 'd', 'u': 'd'}.get(ty, ty)
                out.append(fmt_value(v, spec))
            elif ty == 'c':
                out.append(SymStr.char(v) if isinstance(v, SymInt) else v)
            else:
                raise Unsupported('%% format %s' % ty)
    if not used_map and pos < len(seq) and not (single and mapping is not None):
        raise TypeError('not all arguments converted during string formatting')
    return cat(*out)


def _maybe_pct(g):
    if isinstance(g, str):
        return '%' in g
    if isinstance(g, Ch):
        return _chin(g, '%') is not False
    return False


def str_format(fmt, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        m = _re.match(r'^([^.\[]*)(.*)$', field, _re.S)
        first, rest = m.groups()
        if first == '':
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kwargs[first]
        for mm in _re.finditer(r'\.(\w+)|\[([^\]]*)\]', rest):
            if mm.group(1):
                v = getattr(v, mm.group(1))
            else:
                k = mm.group(2)
                v = v[int(k) if k.isdigit() else k]
        if spec and '{' in spec:
            def sub(mm):
                nonlocal auto
                n = mm.group(1)
                if n == '':
                    x = args[auto]
                    auto += 1
                elif n.isdigit():
                    x = args[int(n)]
                else:
                    x = kwargs[n]
                return str(x)
            spec = _re.sub(r'\{(\w*)\}', sub, spec)
        out.append(fmt_value(v, spec or '',
                             {None: -1, 'r': 114, 's': 115, 'a': 97}[conv]))
    return cat(*out)
