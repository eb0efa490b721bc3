"""Reads the generated Go, C, C++ and Python sources (symbolic or not).

Only enough of each language to evaluate constant initialisers: comments,
string literals, braces, `name = value` declarations and #defines.  Symbolic
characters and numbers never act as delimiters (the harnesses choose their
alphabets accordingly)."""
from pysym.core import SymInt
from pysym.strings import SymStr, Num, Ch, atoms_of, chars_of, _norm, \
    parse_int, str_eq, code
from harness.ctx import *
from harness.ctx import codes, hex_nibble


class Bad(Exception):
    """The text is not in the expected language fragment."""


PUNCT = set('{}[]()=;,:&*+<>?|!')


class Str:
    """A string literal, or adjacent/concatenated ones: lists of atoms."""

    def __init__(self, pieces):
        self.pieces = pieces

    def text(self):
        """The characters, assuming no escapes."""
        atoms = [a for p in self.pieces for a in p]
        if any(a == '\\' for a in atoms if isinstance(a, str)):
            raise Bad('escape in a string')
        return _norm(atoms)

    def __repr__(self):
        return 'Str(%r)' % (self.pieces,)


class Ref:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '&%s' % self.name


class Group:
    def __init__(self, kind):
        self.kind = kind
        self.items = []         # values
        self.keys = []          # parallel: None, word or Str

    def get(self, key):
        r = [v for k, v in zip(self.keys, self.items) if key_is(k, key)]
        if len(r) != 1:
            raise Bad('key %s occurs %d times' % (key, len(r)))
        return r[0]

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __repr__(self):
        return 'Group(%r)' % (list(zip(self.keys, self.items)),)


def key_is(k, name):
    if isinstance(k, Str):
        k = k.text()
    return isinstance(k, str) and k == name


def lines_of(text):
    """List of lines, each a list of atoms (str chars, Ch, Num)."""
    out, cur = [], []
    for a in atoms_of(text):
        if isinstance(a, str) and a == '\n':
            out.append(cur)
            cur = []
        else:
            cur.append(a)
    if cur:
        out.append(cur)
    return out


def atext(atoms):
    return _norm(list(atoms))


def starts(atoms, prefix):
    return len(atoms) >= len(prefix) and all(
        isinstance(a, str) and a == p for a, p in zip(atoms, prefix))


def tokens(text, lang):
    """List of (kind, value): p punctuation, w word, s string atoms, n end of
    line, d #define (name, rest)."""
    out = []
    block = False
    q3 = None
    for ln in lines_of(text):
        i, n = 0, len(ln)
        if lang in ('c', 'cpp') and not block:
            k = 0
            while k < n and isinstance(ln[k], str) and ln[k] in ' \t':
                k += 1
            if k < n and isinstance(ln[k], str) and ln[k] == '#':
                out.append(('d', ln[k:]))
                continue
        while i < n:
            a = ln[i]
            nx = ln[i + 1] if i + 1 < n else None
            if block:
                if a == '*' and nx == '/':
                    block = False
                    i += 2
                else:
                    i += 1
                continue
            if not isinstance(a, str) or not (
                    a in PUNCT or a in ' \t\r\'"#/'):
                j = i
                while j < n and (not isinstance(ln[j], str) or not (
                        ln[j] in PUNCT or ln[j] in ' \t\r\'"#/')):
                    j += 1
                out.append(('w', atext(ln[i:j])))
                i = j
                continue
            if a in ' \t\r':
                i += 1
            elif lang == 'py' and a == '#':
                break
            elif lang != 'py' and a == '/' and nx == '/':
                break
            elif lang != 'py' and a == '/' and nx == '*':
                block = True
                i += 2
            elif a in '"\'':
                j = i + 1
                buf = []
                while True:
                    if j >= n:
                        raise Bad('unterminated string')
                    b = ln[j]
                    if isinstance(b, str) and b == '\\':
                        if j + 1 >= n:
                            raise Bad('unterminated string')
                        buf += [b, ln[j + 1]]
                        j += 2
                        continue
                    if isinstance(b, str) and b == a:
                        break
                    buf.append(b)
                    j += 1
                out.append(('s', buf))
                i = j + 1
            else:
                out.append(('p', a))
                i += 1
        out.append(('n', None))
    return out


OPEN = {'{': '}', '[': ']', '(': ')'}


class _Parser:
    def __init__(self, toks, lang):
        self.t = toks
        self.i = 0
        self.lang = lang

    def value(self, depth):
        """Parses up to a delimiter at this depth."""
        last = None
        plus = True
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == 'n':
                if depth == 0 and self.lang in ('go', 'py') and not plus:
                    break
                self.i += 1
                continue
            if k == 'd':
                self.i += 1
                continue
            if k == 'p':
                if v in '};,:])':
                    break
                self.i += 1
                if v in OPEN:
                    g = self.group(v)
                    if v == '(' and last is None and len(g.items) == 1 \
                            and self.lang == 'py':
                        last = g.items[0]
                    elif v != '(':
                        last = g
                    plus = False
                elif v == '&':
                    while self.t[self.i][0] == 'n':
                        self.i += 1
                    if self.t[self.i][0] != 'w':
                        raise Bad('& without a name')
                    last = Ref(self.t[self.i][1])
                    self.i += 1
                    plus = False
                elif v == '+':
                    plus = True
                elif v in '*<>|?!=':
                    pass
                continue
            self.i += 1
            if k == 's':
                if isinstance(last, Str):
                    last.pieces.append(v)
                else:
                    last = Str([v])
            else:
                last = v
            plus = False
        return last

    def group(self, op):
        g = Group(op)
        close = OPEN[op]
        while True:
            v = self.value(1)
            if self.i >= len(self.t):
                raise Bad('unbalanced %s' % op)
            k, p = self.t[self.i]
            key = None
            if k == 'p' and p == ':':
                self.i += 1
                key = v
                v = self.value(1)
                k, p = self.t[self.i]
            if v is not None:
                g.items.append(v)
                g.keys.append(key)
            self.i += 1
            if p == close:
                return g
            if p not in (',', ';'):
                raise Bad('unexpected %s' % p)


class File:
    def __init__(self, text, lang):
        self.lang = lang
        self.names = []         # declared names in order
        self.values = {}
        self.pairs = []         # (name, value), symbolic names included
        self.def_pairs = []
        self.psizes = []        # (name, explicit array size)
        self.sizes = {}         # explicit array sizes
        self.externs = []       # (name, array size)
        self.defines = {}
        self.define_names = []
        self.dup = []
        toks = tokens(text, lang)
        self._decls(toks)

    def _add(self, name, value, size=None):
        self.pairs.append((name, value))
        self.psizes.append((name, size))
        if not isinstance(name, str):
            # symbolic identifiers stay in the list only
            self.names.append(name)
            self.symbolic = getattr(self, 'symbolic', [])
            self.symbolic.append((name, value))
            return
        if name in self.values:
            self.dup.append(name)
        self.names.append(name)
        self.values[name] = value
        self.sizes[name] = size

    def _decls(self, toks):
        p = _Parser(toks, self.lang)
        stmt = []
        while p.i < len(toks):
            k, v = toks[p.i]
            if k == 'd':
                self._define(v)
                p.i += 1
                continue
            if k == 'p' and v == '=':
                p.i += 1
                name, size = self._name(stmt)
                val = p.value(0)
                stmt = []
                if name is not None:
                    self._add(name, val, size)
                continue
            if k == 'n':
                if self.lang in ('go', 'py'):
                    stmt = []
            elif k == 'p' and v in ';{}':
                if v == ';' and ('w', 'extern') in stmt:
                    self.externs.append(self._name(stmt))
                stmt = []
            elif k == 'p' and v == '(' and self.lang == 'go':
                stmt = []
            else:
                stmt.append((k, v))
            p.i += 1

    def _define(self, atoms):
        s = atext(atoms)
        body = []
        for t in tokens(_cut_define(atoms), 'cdef'):
            if t[0] != 'n':
                body.append(t)
        if not starts(atoms, '#define') or len(body) < 2:
            return
        name = body[1][1]
        p = _Parser(body[2:], 'c')
        val = p.value(0)
        self.def_pairs.append((name, val))
        if isinstance(name, str):
            if name in self.defines:
                self.dup.append(name)
            self.defines[name] = val
        else:
            self.sym_defines = getattr(self, 'sym_defines', [])
            self.sym_defines.append((name, val))
        self.define_names.append(name)

    def _name(self, stmt):
        words = []
        size = None
        i = 0
        while i < len(stmt):
            k, v = stmt[i]
            if k == 'p' and v == '[':
                j = i + 1
                while j < len(stmt) and stmt[j] != ('p', ']'):
                    j += 1
                if words and j > i + 1 and self.lang in ('c', 'cpp'):
                    size = stmt[i + 1][1]
                i = j + 1
                continue
            if k == 'p' and v == ':' and self.lang == 'py':
                break
            if k == 'w':
                words.append(v)
            i += 1
        if self.lang == 'go':
            words = [w for w in words if w not in ('const', 'var')]
            return (words[0] if words else None), size
        if self.lang == 'py':
            return (words[0] if words else None), size
        words = [w for w in words if not (isinstance(w, str)
                                          and w == 'ACE_TIME_PROGMEM')]
        return (words[-1] if words else None), size

    def find(self, name):
        """The value of the only declaration or define of a possibly symbolic
        name; forks on comparisons of symbolic names."""
        r = [v for n, v in self.pairs + self.def_pairs if _same(n, name)]
        if len(r) != 1:
            raise Bad('%r is declared %d times' % (name, len(r)))
        return r[0]

    def get(self, name):
        if name in self.values:
            return self.values[name]
        if name in self.defines:
            return self.defines[name]
        raise Bad('%s is not declared' % name)

    def has(self, name):
        return name in self.values or name in self.defines


def _same(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else bool(r)


def _cut_define(atoms):
    return atext(['d', 'e', 'f', ' '] + list(atoms[len('#define'):])) \
        if starts(atoms, '#define') else ''


def num(v):
    """Integer denoted by a word."""
    if isinstance(v, int) or isinstance(v, SymInt):
        return v
    if isinstance(v, str):
        try:
            return int(v, 0) if not (len(v) > 1 and v[0] == '0'
                                     and v.isdigit()) else int(v)
        except ValueError:
            raise Bad('not a number: %s' % v)
    if isinstance(v, SymStr):
        if v.segs[0] == '0x' and len(v.segs) == 2 and isinstance(
                v.segs[1], Num) and v.segs[1].base == 16:
            return v.segs[1].value
        try:
            return parse_int(v)
        except ValueError:
            raise Bad('not a number')
    raise Bad('not a number: %r' % (v,))


def hex_bytes(v):
    """Byte values of a Str made of \\xhh groups only."""
    if not isinstance(v, Str):
        raise Bad('not a string: %r' % (v,))
    out = []
    for p in v.pieces:
        i = 0
        while i < len(p):
            if not (p[i] == '\\' and i + 2 < len(p) and p[i + 1] == 'x'):
                raise Bad('not a hexadecimal escape')
            a = p[i + 2]
            if isinstance(a, Num):
                if not (a.base == 16 and a.width == 2 and a.fill == '0'
                        and a.value.lo is not None and a.value.lo >= 0
                        and a.value.hi is not None and a.value.hi <= 255):
                    rest = [x for y in p[i + 2:] for x in (
                        y.expand() if isinstance(y, Num) else [y])]
                    p = p[:i + 2] + rest
                    continue
                out.append(a.value)
                i += 3
                continue
            if i + 3 >= len(p):
                raise Bad('short escape')
            h, l = hex_nibble(code(a)), hex_nibble(code(p[i + 3]))
            if isinstance(h, int) and isinstance(l, int) and (
                    h < 0 or l < 0):
                raise Bad('not a hexadecimal digit')
            out.append(h * 16 + l)
            i += 4
    return out


def le(bs, signed=False):
    """Value of little-endian bytes."""
    v = 0
    for k, b in enumerate(bs):
        v = v + b * (256 ** k)
    if signed:
        top = 256 ** len(bs)
        v = If(v >= top // 2, v - top, v)
    return v


def chunks(bs, size):
    if len(bs) % size:
        raise Bad('table is not a multiple of %d bytes' % size)
    return [bs[i:i + size] for i in range(0, len(bs), size)]


def unpack(bs, layout):
    """layout: string of u/i + width, e.g. 'i2 i2 u1'."""
    out, i = [], 0
    for f in layout.split():
        w = int(f[1:])
        out.append(le(bs[i:i + w], f[0] == 'i'))
        i += w
    if i != len(bs):
        raise Bad('chunk size')
    return out
