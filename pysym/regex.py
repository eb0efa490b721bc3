"""A small backtracking regular-expression matcher for symbolic strings."""
import re as _re
from re import _parser, _constants as C
from .core import E, SymInt, Unsupported, s_and, s_or, s_not, deep_sym
from . import strings as S
from .strings import SymStr, chars_of, _norm, code


def _cat_pred(cat, c):
    x = code(c)
    if cat == C.CATEGORY_DIGIT or cat == C.CATEGORY_NOT_DIGIT:
        r = s_and(x >= 48, x <= 57)
        neg = cat == C.CATEGORY_NOT_DIGIT
    elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        r = S._chin(c, S.WS) if not isinstance(c, str) else c.isspace()
        neg = cat == C.CATEGORY_NOT_SPACE
    elif cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        if isinstance(c, str):
            r = c.isalnum() or c == '_'
        else:
            S._ascii(x)
            r = s_or(s_and(x >= 48, x <= 57), s_and(x >= 65, x <= 90),
                     s_and(x >= 97, x <= 122), x == 95)
        neg = cat == C.CATEGORY_NOT_WORD
    else:
        raise Unsupported('regex category')
    return s_not(r) if neg else r


def _lit(x, v, icase):
    if not icase:
        return x == v
    alts = {v, ord(chr(v).lower()), ord(chr(v).upper())}
    return s_or(*[x == a for a in alts])


def _in(items, c, icase):
    x = code(c)
    neg = False
    out = []
    for op, av in items:
        if op == C.NEGATE:
            neg = True
        elif op == C.LITERAL:
            out.append(_lit(x, av, icase))
        elif op == C.RANGE:
            lo, hi = av
            out.append(s_and(x >= lo, x <= hi))
            if icase:
                for y in range(lo, hi + 1):
                    if chr(y).swapcase() != chr(y):
                        out.append(x == ord(chr(y).swapcase()))
        elif op == C.CATEGORY:
            out.append(_cat_pred(av, c))
        else:
            raise Unsupported('regex set item')
    r = s_or(*out)
    return s_not(r) if neg else r


class Matcher:
    def __init__(self, pat, cs):
        self.p = pat
        self.cs = cs
        self.n = len(cs)
        self.flags = pat.flags

    def m(self, ops, k, i, g, cont):
        """Match ops[k:] at i; cont(i, g) -> result or None."""
        if k == len(ops):
            return cont(i, g)
        op, av = ops[k]
        cs, n = self.cs, self.n
        icase = bool(self.flags & _re.I)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= n:
                return None
            c = cs[i]
            if op == C.LITERAL:
                r = _lit(code(c), av, icase)
            elif op == C.NOT_LITERAL:
                r = s_not(_lit(code(c), av, icase))
            elif op == C.ANY:
                r = True if self.flags & _re.S else s_not(code(c) == 10)
            else:
                r = _in(av, c, icase)
            if not r:
                return None
            return self.m(ops, k + 1, i + 1, g, cont)
        if op == C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0
                if av == C.AT_BEGINNING and self.flags & _re.M and not ok:
                    ok = bool(code(cs[i - 1]) == 10)
            elif av == C.AT_END_STRING:
                ok = i == n
            elif av == C.AT_END:
                ok = i == n or (i == n - 1 and bool(code(cs[i]) == 10))
                if not ok and self.flags & _re.M:
                    ok = bool(code(cs[i]) == 10)
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = bool(i > 0 and _cat_pred(C.CATEGORY_WORD, cs[i - 1]))
                b = bool(i < n and _cat_pred(C.CATEGORY_WORD, cs[i]))
                ok = (a != b) == (av == C.AT_BOUNDARY)
            else:
                raise Unsupported('regex anchor')
            return self.m(ops, k + 1, i, g, cont) if ok else None
        if op == C.SUBPATTERN:
            gid, add, dele, p = av

            def after(j, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (i, j)
                return self.m(ops, k + 1, j, gg, cont)
            return self.m(list(p), 0, i, g, after)
        if op == C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, i, g,
                           lambda j, gg: self.m(ops, k + 1, j, gg, cont))
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op == C.MAX_REPEAT

            def rep(cnt, j, gg, last):
                def more():
                    if hi is not C.MAXREPEAT and cnt >= hi:
                        return None
                    if cnt >= lo and last == j and cnt > 0:
                        return None
                    return self.m(p, 0, j, gg,
                                  lambda j2, g2: rep(cnt + 1, j2, g2, j))

                def done():
                    if cnt < lo:
                        return None
                    return self.m(ops, k + 1, j, gg, cont)
                for f in ((more, done) if greedy else (done, more)):
                    r = f()
                    if r is not None:
                        return r
                return None
            return rep(0, i, g, None)
        if op == C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            for t in range(a, b):
                if i >= n or not (code(cs[i]) == code(cs[t])):
                    return None
                i += 1
            return self.m(ops, k + 1, i, g, cont)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                raise Unsupported('regex lookbehind')
            r = self.m(list(p), 0, i, g, lambda j, gg: gg)
            if (r is None) == (op == C.ASSERT):
                return None
            return self.m(ops, k + 1, i, r if op == C.ASSERT else g, cont)
        raise Unsupported('regex op %s' % op)


class Match:
    def __init__(self, pat, string, cs, g):
        self.re = pat
        self.string = string
        self._cs = cs
        self._g = g
        self.lastindex = max([k for k in g if isinstance(k, int) and k],
                             default=None)

    def _key(self, k):
        if isinstance(k, str):
            return self.re.groupindex[k]
        if k > self.re.groups:
            raise IndexError('no such group')
        return k

    def _one(self, k, d=None):
        k = self._key(k)
        if k not in self._g:
            return d
        a, b = self._g[k]
        return _norm(self._cs[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default)
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(k, default) for k in self.re.groupindex}

    def start(self, k=0):
        return self._g.get(self._key(k), (-1, -1))[0]

    def end(self, k=0):
        return self._g.get(self._key(k), (-1, -1))[1]

    def span(self, k=0):
        return self._g.get(self._key(k), (-1, -1))

    def expand(self, t):
        return _template(t, self)

    def __bool__(self):
        return True


def _template(repl, m):
    def rp(mm):
        t = mm.group(1) or mm.group(2)
        return '\0%s\0' % t
    if not isinstance(repl, str):
        return repl
    if '\\' not in repl:
        return repl
    parts = _re.split(r'\\g<(\w+)>|\\(\d)', repl)
    out = []
    i = 0
    while i < len(parts):
        out.append(parts[i])
        if i + 2 < len(parts):
            ref = parts[i + 1] or parts[i + 2]
            v = m._one(int(ref) if ref.isdigit() else ref, '')
            out.append(v)
        i += 3
    return S.cat(*out)


class Pattern:
    def __init__(self, p, flags=0):
        self._n = _re.compile(p, flags)
        self.pattern = p
        self.flags = self._n.flags
        self.groups = self._n.groups
        self.groupindex = dict(self._n.groupindex)
        self._ops = None

    def _tree(self):
        if self._ops is None:
            self._ops = list(_parser.parse(self.pattern, self.flags
                                           & ~_re.UNICODE))
        return self._ops

    def _at(self, s, cs, i, full=False):
        mt = Matcher(self, cs)

        def cont(j, g):
            if full and j != len(cs):
                return None
            g = dict(g)
            g[0] = (i, j)
            return g
        g = mt.m(self._tree(), 0, i, {}, cont)
        return None if g is None else Match(self, s, cs, g)

    def match(self, s, pos=0):
        if isinstance(s, str):
            return self._n.match(s, pos)
        return self._at(s, chars_of(s), pos)

    def fullmatch(self, s, pos=0):
        if isinstance(s, str):
            return self._n.fullmatch(s, pos)
        return self._at(s, chars_of(s), pos, True)

    def search(self, s, pos=0):
        if isinstance(s, str):
            return self._n.search(s, pos)
        cs = chars_of(s)
        for i in range(pos, len(cs) + 1):
            m = self._at(s, cs, i)
            if m:
                return m
        return None

    def finditer(self, s):
        if isinstance(s, str):
            yield from self._n.finditer(s)
            return
        cs = chars_of(s)
        i = 0
        while i <= len(cs):
            m = self._at(s, cs, i)
            if m is None:
                i += 1
                continue
            yield m
            i = m.end() if m.end() > i else i + 1

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1))
            else:
                out.append(m.groups(''))
        return out

    def subn(self, repl, s, count=0):
        if isinstance(s, str) and isinstance(repl, str):
            return self._n.subn(repl, s, count)
        s = SymStr.lift(s)
        cs = chars_of(s)
        out = []
        i = n = 0
        prev = -1
        while i <= len(cs):
            if count and n >= count:
                break
            m = self._at(s, cs, i)
            if m is None or (m.end() == i and prev == i):
                if i < len(cs):
                    out.append(_norm([cs[i]]))
                i += 1
                continue
            n += 1
            out.append(repl(m) if callable(repl) else _template(repl, m))
            if m.end() > i:
                i = prev = m.end()
            else:
                if i < len(cs):
                    out.append(_norm([cs[i]]))
                i += 1
        if i < len(cs):
            out.append(_norm(cs[i:]))
        return S.cat(*[_renorm(o) for o in out]), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self._n.split(s, maxsplit)
        cs = chars_of(s)
        out = []
        last = i = 0
        while i < len(cs):
            if maxsplit and len(out) >= maxsplit:
                break
            m = self._at(s, cs, i)
            if m is None or m.end() == i:
                i += 1
                continue
            out.append(_norm(cs[last:i]))
            out.extend(m.groups())
            i = last = m.end()
        out.append(_norm(cs[last:]))
        return out


def _renorm(x):
    return x


class _ReModule:
    Pattern = Pattern
    Match = Match

    def compile(self, p, flags=0):
        if isinstance(p, Pattern):
            return p
        if isinstance(p, SymStr):
            p = p.conc()
        return Pattern(p, flags)

    def __getattr__(self, n):
        if n in ('match', 'fullmatch', 'search', 'finditer', 'findall'):
            def f(p, s, flags=0):
                return getattr(self.compile(p, flags), n)(s)
            return f
        return getattr(_re, n)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)

    def subn(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).subn(repl, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def escape(self, s):
        return _re.escape(S.to_str(s) if isinstance(s, str) else s.conc())


re_module = _ReModule()
