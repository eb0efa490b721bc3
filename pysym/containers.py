"""Containers that accept symbolic keys, elements and bytes."""
from .core import (E, SymInt, SymBool, Unsupported, s_and, s_or, s_not, s_if,
                   deep_sym, deep_eq)
from . import strings as S

_MISSING = object()


class _Entry:
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k = k
        self.v = v


def _freeze(k):
    """Keys that are containers of ours get a hashable form."""
    return k


class VDict:
    """Insertion-ordered mapping; keys may be symbolic."""
    _is_v = True
    _kind = 'dict'

    def __init__(self, *a, **kw):
        self._n = {}        # native key -> entry
        self._order = {}    # id(entry) -> entry
        self._sym = []      # entries with symbolic keys
        if a:
            self.update(a[0])
        if kw:
            self.update(kw)

    # -- lookup
    def _find(self, k):
        if not deep_sym(k):
            e = self._n.get(k)
            if e is not None:
                return e
            for e in self._sym:
                if deep_eq(e.k, k):
                    return e
            return None
        for e in self._order.values():
            if e.k is k:
                return e
        for e in list(self._order.values()):
            r = deep_eq(k, e.k)
            if r is not False and r:
                return e
        return None

    def sym_in(self, k):
        """Non-forking membership."""
        if not deep_sym(k):
            if k in self._n:
                return True
            return s_or(*[deep_eq(e.k, k) for e in self._sym])
        return s_or(*[deep_eq(k, e.k) for e in self._order.values()])

    def __contains__(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            m = getattr(self, '__missing__', None)
            if m is not None:
                return m(k)
            raise KeyError(k)
        return e.v

    def get(self, k, default=None):
        e = self._find(k)
        return default if e is None else e.v

    def __setitem__(self, k, v):
        e = self._find(k)
        if e is not None:
            e.v = v
            return
        e = _Entry(k, v)
        if deep_sym(k):
            self._sym.append(e)
        else:
            self._n[k] = e
        self._order[id(e)] = e

    def _remove(self, e):
        del self._order[id(e)]
        if deep_sym(e.k):
            self._sym = [x for x in self._sym if x is not e]
        else:
            del self._n[e.k]

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        self._remove(e)

    def pop(self, k, *d):
        e = self._find(k)
        if e is None:
            if d:
                return d[0]
            raise KeyError(k)
        self._remove(e)
        return e.v

    def popitem(self, last=True):
        if not self._order:
            raise KeyError('dictionary is empty')
        es = list(self._order.values())
        e = es[-1 if last else 0]
        self._remove(e)
        return (e.k, e.v)

    def move_to_end(self, k, last=True):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        del self._order[id(e)]
        if last:
            self._order[id(e)] = e
        else:
            o = self._order
            self._order = {id(e): e}
            self._order.update(o)

    def setdefault(self, k, d=None):
        e = self._find(k)
        if e is None:
            self[k] = d
            return d
        return e.v

    def clear(self):
        self._n = {}
        self._order = {}
        self._sym = []

    # -- iteration
    def __iter__(self):
        n = len(self._order)
        for e in list(self._order.values()):
            yield e.k
            if len(self._order) != n:
                raise RuntimeError('dictionary changed size during iteration')

    def __reversed__(self):
        return iter([e.k for e in reversed(list(self._order.values()))])

    def keys(self):
        return _View(self, 0)

    def values(self):
        return _View(self, 1)

    def items(self):
        return _View(self, 2)

    def __len__(self):
        return len(self._order)

    def __bool__(self):
        return bool(self._order)

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = type(self).__new__(type(self))
        VDict.__init__(r)
        for e in self._order.values():
            r._put(e.k, e.v)
        if hasattr(self, 'default_factory'):
            r.default_factory = self.default_factory
        return r

    __copy__ = copy

    def _put(self, k, v):
        """Insert a key known to be new."""
        e = _Entry(k, v)
        if deep_sym(k):
            self._sym.append(e)
        else:
            self._n[k] = e
        self._order[id(e)] = e

    def __deepcopy__(self, memo):
        import copy
        r = self.copy()
        memo[id(self)] = r
        for e in r._order.values():
            e.v = copy.deepcopy(e.v, memo)
        return r

    @classmethod
    def fromkeys(cls, ks, v=None):
        r = cls()
        for k in ks:
            r[k] = v
        return r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = VDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (dict, VDict)):
            return False
        if len(o) != len(self):
            return False
        out = []
        for k, v in self.items():
            if k not in o:
                return False
            out.append(deep_eq(v, o[k]))
        return s_and(*out)

    def __ne__(self, o):
        return s_not(self == o)

    __hash__ = None

    def sym_repr(self):
        return S.cat('{', S.join(', ', [
            S.cat(S.sym_repr(k), ': ', S.sym_repr(v))
            for k, v in self.items()]), '}')

    def __repr__(self):
        r = self.sym_repr()
        return r if isinstance(r, str) else '<VDict %r>' % (r,)

    def __format__(self, spec):
        return str(self.sym_repr())


class _View:
    _is_v = True

    def __init__(self, d, what):
        self.d = d
        self.what = what

    def __iter__(self):
        d = self.d
        n = len(d._order)
        for e in list(d._order.values()):
            if self.what == 0:
                yield e.k
            elif self.what == 1:
                yield e.v
            else:
                yield (e.k, e.v)
            if len(d._order) != n:
                raise RuntimeError('dictionary changed size during iteration')

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        return bool(self.sym_in(x))

    def sym_in(self, x):
        if self.what == 0:
            return self.d.sym_in(x)
        return s_or(*[deep_eq(x, y) for y in self])

    def _set(self):
        return VSet(self)

    def __sub__(self, o):
        return self._set() - VSet(o)

    def __and__(self, o):
        return self._set() & VSet(o)

    def __or__(self, o):
        return self._set() | VSet(o)

    def __xor__(self, o):
        return self._set() ^ VSet(o)

    def __rsub__(self, o):
        return VSet(o) - self._set()

    def __eq__(self, o):
        return self._set() == VSet(o)

    def __le__(self, o):
        return self._set() <= VSet(o)

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    __hash__ = None

    def sym_repr(self):
        n = ('dict_keys', 'dict_values', 'dict_items')[self.what]
        return S.cat(n, '(', S.sym_repr(list(self)), ')')

    def __repr__(self):
        r = self.sym_repr()
        return r if isinstance(r, str) else '<view>'


class VOrderedDict(VDict):
    _kind = 'OrderedDict'

    def sym_repr(self):
        if not self._order:
            return 'OrderedDict()'
        return S.cat('OrderedDict(', VDict.sym_repr(self), ')')


class VDefaultDict(VDict):
    _kind = 'defaultdict'

    def __init__(self, default_factory=None, *a, **kw):
        self.default_factory = default_factory
        VDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class VCounter(VDict):
    _kind = 'Counter'

    def __init__(self, it=None, **kw):
        VDict.__init__(self)
        if it is not None:
            self.update(it)
        if kw:
            self.update(kw)

    def __missing__(self, k):
        return 0

    def update(self, it=None, **kw):
        if it is not None:
            if hasattr(it, 'items'):
                for k, v in it.items():
                    self[k] = self.get(k, 0) + v
            else:
                for k in it:
                    self[k] = self.get(k, 0) + 1
        for k, v in kw.items():
            self[k] = self.get(k, 0) + v

    def subtract(self, it):
        if hasattr(it, 'items'):
            for k, v in it.items():
                self[k] = self.get(k, 0) - v
        else:
            for k in it:
                self[k] = self.get(k, 0) - 1

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda x: x[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        t = 0
        for v in self.values():
            t = v + t
        return t


def unordered(it):
    """Elements of an iterable whose order does not matter."""
    return it._keys() if isinstance(it, VSet) else it


class VSet:
    _is_v = True
    _kind = 'set'

    def __init__(self, it=()):
        self._d = VDict()
        self._seen = None
        for x in unordered(it):
            self._d[x] = True

    def _mk(self, it):
        r = VSet()
        for x in it:
            r._d[x] = True
        return r

    def __iter__(self):
        ks = [e.k for e in self._d._order.values()]
        if E.set_orders and len(ks) > 1:
            # the same order until the set changes
            es = list(self._d._order.values())
            if self._seen is None or len(es) != len(self._seen[0]) or any(
                    a is not b for a, b in zip(es, self._seen[0])):
                self._seen = (es, E.permute(ks))
            ks = list(self._seen[1])
        n = len(self._d)
        for k in ks:
            yield k
            if len(self._d) != n:
                raise RuntimeError('Set changed size during iteration')

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __contains__(self, x):
        return x in self._d

    def sym_in(self, x):
        return self._d.sym_in(x)

    def add(self, x):
        self._d.setdefault(x, True)

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        ks = [e.k for e in self._d._order.values()]
        if not ks:
            raise KeyError('pop from an empty set')
        k = E.permute(ks)[0] if E.set_orders and len(ks) > 1 else ks[0]
        del self._d[k]
        return k

    def clear(self):
        self._d.clear()

    def copy(self):
        r = VSet()
        r._d = self._d.copy()
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _keys(self):
        return [e.k for e in self._d._order.values()]

    def update(self, *its):
        for it in its:
            for x in unordered(it):
                self.add(x)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, *its):
        r = self._keys()
        for it in its:
            o = it if isinstance(it, VSet) else VSet(it)
            r = [x for x in r if x in o]
        return self._mk(r)

    def difference(self, *its):
        r = self._keys()
        for it in its:
            o = it if isinstance(it, VSet) else VSet(it)
            r = [x for x in r if x not in o]
        return self._mk(r)

    def symmetric_difference(self, it):
        o = it if isinstance(it, VSet) else VSet(it)
        return self.difference(o).union(o.difference(self))

    def difference_update(self, *its):
        self._d = self.difference(*its)._d

    def intersection_update(self, *its):
        self._d = self.intersection(*its)._d

    def issubset(self, it):
        o = it if isinstance(it, VSet) else VSet(it)
        return all(x in o for x in self._keys())

    def issuperset(self, it):
        return all(x in self for x in unordered(it))

    def isdisjoint(self, it):
        return not any(x in self for x in unordered(it))

    def _chk(self, o):
        return isinstance(o, (VSet, set, frozenset, _View))

    def __or__(self, o):
        return self.union(o) if self._chk(o) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if self._chk(o) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if self._chk(o) else NotImplemented

    def __rsub__(self, o):
        return VSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __rxor__ = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not self._chk(o):
            return False
        o = o if isinstance(o, VSet) else VSet(o)
        return len(o) == len(self) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def sym_repr(self):
        if not self._d:
            return 'set()'
        return S.cat('{', S.join(', ', [S.sym_repr(x) for x in self]), '}')

    def __repr__(self):
        r = self.sym_repr()
        return r if isinstance(r, str) else '<VSet>'

    def __format__(self, spec):
        return str(self.sym_repr())


class VFrozenSet(VSet):
    _kind = 'frozenset'

    def __hash__(self):
        return hash(frozenset(self._keys()))


class VBytes:
    """bytes (mutable=False) or bytearray (mutable=True)."""
    _is_vbytes = True

    def __init__(self, b=(), mutable=True):
        self.b = list(b)
        self.mutable = mutable

    def native(self):
        c = bytearray if self.mutable else bytes
        return c(self.b)

    def native_conc(self):
        c = bytearray if self.mutable else bytes
        return c([x.conc() if isinstance(x, SymInt) else x for x in self.b])

    @staticmethod
    def _chk(x):
        if isinstance(x, SymBool):
            x = x._ei()
        if not isinstance(x, (int, SymInt)):
            raise TypeError("'%s' object cannot be interpreted as an integer"
                            % type(x).__name__)
        if x < 0 or x > 255:
            raise ValueError('byte must be in range(0, 256)')
        return x

    def append(self, x):
        self.b.append(self._chk(x))

    def extend(self, xs):
        self.b.extend([self._chk(x) for x in xs])

    def insert(self, i, x):
        self.b.insert(i, self._chk(x))

    def pop(self, i=-1):
        return self.b.pop(i)

    def reverse(self):
        self.b.reverse()

    def clear(self):
        self.b.clear()

    def copy(self):
        return VBytes(self.b, self.mutable)

    def __deepcopy__(self, memo):
        return self.copy()

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    def __iter__(self):
        return iter(self.b)

    def __reversed__(self):
        return reversed(self.b)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[x.conc() if isinstance(x, SymInt) else x
                        for x in (k.start, k.stop, k.step)])
            return VBytes(self.b[k], self.mutable)
        if isinstance(k, SymInt):
            k = k.conc()
        return self.b[k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.b[k] = [self._chk(x) for x in v]
        else:
            self.b[k] = self._chk(v)

    def __delitem__(self, k):
        del self.b[k]

    def __add__(self, o):
        return VBytes(self.b + list(o), self.mutable)

    def __radd__(self, o):
        return VBytes(list(o) + self.b, isinstance(o, bytearray))

    def __iadd__(self, o):
        if self.mutable:
            self.extend(o)
            return self
        return VBytes(self.b + list(o), False)

    def __mul__(self, k):
        return VBytes(self.b * int(k), self.mutable)

    def __contains__(self, x):
        return bool(s_or(*[deep_eq(x, y) for y in self.b]))

    def __eq__(self, o):
        if not isinstance(o, (VBytes, bytes, bytearray)):
            return False
        o = list(o)
        if len(o) != len(self.b):
            return False
        return s_and(*[deep_eq(x, y) for x, y in zip(self.b, o)])

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(bytes(self.native_conc()))

    def hex(self, sep='', n=1):
        out = []
        for i, x in enumerate(self.b):
            if i and sep and i % n == 0:
                out.append(sep)
            out.append(S.fmt_value(x, '02x'))
        return S.cat(*out)

    def decode(self, encoding='utf-8', errors='strict'):
        out = []
        for x in self.b:
            if isinstance(x, int):
                if x > 127:
                    return self.native_conc().decode(encoding, errors)
                out.append(chr(x))
            else:
                S._ascii(x)
                out.append(S.SymStr.char(x))
        return S.cat(*out)

    def find(self, sub):
        sub = [sub] if isinstance(sub, (int, SymInt)) else list(sub)
        m = len(sub)
        for i in range(len(self.b) - m + 1):
            if s_and(*[deep_eq(self.b[i + j], sub[j]) for j in range(m)]):
                return i
        return -1

    def startswith(self, sub):
        sub = list(sub)
        return len(sub) <= len(self.b) and s_and(
            *[deep_eq(x, y) for x, y in zip(self.b, sub)])

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self.b)
            out.extend(p)
        return VBytes(out, self.mutable)

    def __repr__(self):
        if deep_sym(self):
            return 'VBytes(%r)' % (self.b,)
        return repr(self.native())

    def __bytes__(self):
        return bytes(self.native_conc())
