"""Harness context: symbolic or concrete inputs, assumptions, assertions."""
import z3
from pysym.core import (E, SymInt, SymBool, PathEnd, Unsupported, s_and, s_or,
                        s_not, s_if, deep_eq, deep_sym)
from pysym.strings import SymStr, cat as _cat, fmt_value, chars_of, code, to_str


class Inconclusive(Exception):
    """The harness cannot decide (for instance an internal helper is gone)."""


class AssumeFailed(Exception):
    """Concrete replay left the assumed input space."""


class Ctx:
    """Symbolic mode when values is None."""

    def __init__(self, values=None):
        self.values = values
        self.sym = values is None
        self.inputs = {}        # name -> z3 var | value
        self.checks = []        # (label, cond)
        self.covers = set()
        self.observed = []      # things compared in trace validation
        self.failed = []        # concrete failures
        self.decoded = {}

    # -- inputs
    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        if name in self.inputs:
            raise ValueError('input %s is used twice' % name)
        if not self.sym:
            v = self.values.get(name, lo)
            if not (lo <= v <= hi):
                raise AssumeFailed(name)
            self.inputs[name] = v
            return v
        v = z3.Int(name)
        E.add_pc(z3.And(v >= lo, v <= hi))
        m = E.ev(v)
        if not (lo <= m.as_long() <= hi):
            r, mod = E._check()
            if r != 'sat':
                raise PathEnd()
            E.model = mod
        self.inputs[name] = v
        return SymInt(v, lo, hi)

    def bool(self, name):
        v = self.int(name, 0, 1)
        return v == 1 if isinstance(v, SymInt) else bool(v)

    def flag(self, name):
        """A forked Python bool."""
        return bool(self.bool(name))

    def choice(self, name, options):
        """One of the options; forks in symbolic mode."""
        i = self.int(name, 0, len(options) - 1)
        if isinstance(i, SymInt):
            i = self._small(i)
        return options[i]

    def forked(self, name, lo, hi):
        i = self.int(name, lo, hi)
        return self._small(i) if isinstance(i, SymInt) else i

    @staticmethod
    def _small(i):
        return i.conc()

    def char(self, name, lo=33, hi=126, exclude=''):
        c = self.int(name, lo, hi)
        for x in exclude:
            if lo <= ord(x) <= hi:
                self.assume(c != ord(x))
        return SymStr.char(c) if isinstance(c, SymInt) else chr(c)

    def text(self, name, n, lo=33, hi=126, exclude=''):
        return cat(*[self.char('%s.%d' % (name, i), lo, hi, exclude)
                     for i in range(n)])

    # -- assumptions and assertions
    def assume(self, cond):
        if self.sym:
            E.assume(cond)
        elif not cond:
            raise AssumeFailed('assume')

    def check(self, cond, label):
        if cond is True:
            self.checks.append((label, True))
            return
        if not isinstance(cond, (bool, SymBool)):
            cond = bool(cond)
        self.checks.append((label, cond))
        if not self.sym and not cond:
            self.failed.append(label)

    def check_eq(self, a, b, label):
        if self.sym:
            r = eq(a, b)
            self.checks.append((label, r))
            return
        r = eq(a, b)
        self.checks.append((label, r))
        if not r:
            self.failed.append('%s: got %r, expected %r' % (label, a, b))

    def fail(self, label):
        self.check(False, label)

    def cover(self, name, cond=True):
        """Reachability witness; cond must be satisfiable on the path."""
        if self.sym and isinstance(cond, SymBool):
            if name in GLOBAL_COVER:
                return
            if z3.is_true(E.ev(cond.e)):
                self.covers.add(name)
            else:
                r, _ = E._check(cond.e)
                if r == 'sat':
                    self.covers.add(name)
            return
        if cond:
            self.covers.add(name)

    def observe(self, name, value):
        self.observed.append((name, value))


GLOBAL_COVER = set()


# helpers that work in both modes -------------------------------------------

def cat(*parts):
    return _cat(*[p if isinstance(p, (str, SymStr)) else to_str(p)
                  for p in parts])


def fmt(v, spec=''):
    return fmt_value(v, spec)


def And(*a):
    return s_and(*a)


def Or(*a):
    return s_or(*a)


def Not(a):
    return s_not(a)


def If(c, a, b):
    return s_if(c, a, b)


def Implies(a, b):
    return s_or(s_not(a), b)


def Iff(a, b):
    return s_or(s_and(a, b), s_and(s_not(a), s_not(b)))


def _isd(x):
    return isinstance(x, dict) or getattr(x, '_kind', '') == 'dict'


def eq(a, b):
    """Structural, non-forking equality."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return s_and(*[eq(x, y) for x, y in zip(a, b)])
    if _isd(a) and _isd(b):
        if len(a) != len(b):
            return False
        out = []
        for k in a:
            if k not in b:
                return False
            out.append(eq(a[k], b[k]))
        return s_and(*out)
    r = a == b
    return r if isinstance(r, (bool, SymBool)) else bool(r)


def evalm(v):
    """Value of a (nested) symbolic thing under the current model."""
    if isinstance(v, SymInt):
        return E.ev(v.e).as_long()
    if isinstance(v, SymBool):
        return z3.is_true(E.ev(v.e))
    if isinstance(v, SymStr):
        out = []
        for g in v.segs:
            if isinstance(g, str):
                out.append(g)
            elif hasattr(g, 'spec'):
                out.append(format(evalm(g.value), g.spec))
            else:
                c = g.code
                out.append(chr(c if isinstance(c, int) else evalm(c)))
        return ''.join(out)
    if isinstance(v, dict):
        return {evalm(k): evalm(x) for k, x in v.items()}
    if getattr(v, '_is_vbytes', False):
        return bytes([evalm(x) for x in v.b])
    if isinstance(v, list):
        return [evalm(x) for x in v]
    if isinstance(v, tuple):
        return tuple(evalm(x) for x in v)
    if hasattr(v, '_is_v') and hasattr(v, 'items'):
        return {evalm(k): evalm(x) for k, x in v.items()}
    if hasattr(v, '_is_v'):
        return sorted([evalm(x) for x in v])
    if isinstance(v, (bytearray, bytes)):
        return bytes(v)
    if isinstance(v, (set, frozenset)):
        return sorted(v)
    return v


def codes(s):
    """List of character codes (int or symbolic) of a text; may fork on the
    number of digits of unpadded numbers."""
    if isinstance(s, str):
        return [ord(c) for c in s]
    return [c if isinstance(c, (int, SymInt)) else code(c)
            for c in chars_of(s)]


def hex_nibble(c):
    """Value of a hexadecimal digit code, -1 when it is not one."""
    return If(And(48 <= c, c <= 57), c - 48,
              If(And(97 <= c, c <= 102), c - 87,
                 If(And(65 <= c, c <= 70), c - 55, -1)))


def make_bytes(ctx, xs):
    """A bytearray holding xs."""
    if ctx.sym:
        from pysym.containers import VBytes
        return VBytes(list(xs))
    return bytearray(xs)


def byte_list(b):
    return list(b.b) if getattr(b, '_is_vbytes', False) else list(b)
