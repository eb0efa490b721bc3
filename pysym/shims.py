"""Replacement builtins and library modules for instrumented code."""
import builtins
import collections as _coll
import collections.abc as _abc
import copy as _copy
import io as _io
import json as _json
import logging as _logging
import numbers
import os as _os
import struct as _struct
import sys as _sys
import types
import argparse as _argparse
import pathlib as _pathlib
import z3

from .core import (E, EngineSignal, SymInt, SymBool, SymFrac, Unsupported, s_and, s_or, s_not, s_if,
                   deep_sym, deep_eq, is_sym)
from . import strings as S
from .strings import SymStr
from .containers import (VDict, unordered, VOrderedDict, VDefaultDict, VCounter, VSet,
                         VFrozenSet, VBytes, _View)
from . import regex, dates

numbers.Integral.register(SymInt)
_abc.MutableMapping.register(VDict)
_abc.MutableSet.register(VSet)
_abc.MutableSequence.register(VBytes)
_abc.Collection.register(_View)


# ---------------------------------------------------------------------------
# operators used by the instrumentation
# ---------------------------------------------------------------------------

def _is_plain(v):
    t = type(v)
    return t is str or t is int or t is bool or t is float or v is None


def E_fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if _is_plain(v) and type(spec) is str:
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            out.append(format(v, spec))
        else:
            r = S.fmt_value(v, spec, conv)
            if type(r) is not str:
                sym = True
            out.append(r)
    if not sym:
        return ''.join(out)
    return S.cat(*out)


E_star = object()


def E_dict(pairs):
    d = VDict()
    for k, v in pairs:
        if k is E_star:
            d.update(v)
        elif type(k) is str and not d._sym:
            # fast path
            e = d._n.get(k)
            if e is None:
                d._put(k, v)
            else:
                e.v = v
        else:
            d[k] = v
    return d


def E_dictc(pairs):
    d = VDict()
    for k, v in pairs:
        d[k] = v
    return d


def E_set(xs):
    return VSet(xs)


def E_in(a, b):
    tb = type(b)
    if tb is VDict or isinstance(b, (VDict, VSet, _View)):
        if deep_sym(a):
            b = b._d if isinstance(b, VSet) else b
            return b.sym_in(a)
        return a in b
    if isinstance(b, SymStr):
        return b.contains(a)
    if tb is str:
        if isinstance(a, SymStr):
            return SymStr.lift(b).contains(a) if len(a) <= len(b) else False
        return a in b
    if tb is list or tb is tuple:
        if deep_sym(a) or any(not _is_plain(x) for x in b):
            return s_or(*[deep_eq(a, x) for x in b])
        return a in b
    if isinstance(b, range) and isinstance(a, SymInt):
        if len(b) == 0:
            return False
        lo, hi = min(b), max(b)
        return s_and(a >= lo, a <= hi, (a - b.start) % b.step == 0)
    if isinstance(b, (dict, set, frozenset)) and deep_sym(a):
        return s_or(*[deep_eq(a, x) for x in b])
    return a in b


def E_notin(a, b):
    return s_not(E_in(a, b))


def E_cm(obj, name, /, *args, **kw):
    t = type(obj)
    if t is str:
        for a in args:
            if not _is_plain(a) and (deep_sym(a) or name == 'join'
                                     or name == 'format'):
                break
        else:
            for a in kw.values():
                if not _is_plain(a):
                    break
            else:
                return getattr(obj, name)(*args, **kw)
        if name == 'join':
            return S.join(obj, *args)
        if name == 'format':
            return S.str_format(obj, args, kw)
        if name == 'format_map':
            return S.str_format(obj, (), args[0])
        return getattr(SymStr.lift(obj), name)(*args, **kw)
    if t is bytes or t is bytearray:
        if any(not _is_plain(a) for a in args):
            r = VBytes(obj, t is bytearray)
            if name == 'join':
                return r.join(*args)
            return getattr(r, name)(*args, **kw)
    elif t is list:
        if name in ('index', 'count', 'remove') and args:
            a = args[0]
            if name == 'count':
                n = 0
                for x in obj:
                    n = n + s_if(deep_eq(x, a), 1, 0)
                return n
    elif t is int and name == 'to_bytes':
        return VBytes(obj.to_bytes(*args, **kw), False)
    elif t is set or t is frozenset:
        if any(isinstance(a, (VSet, _View)) or deep_sym(a) for a in args):
            return getattr(VSet(obj), name)(*args, **kw)
    return getattr(obj, name)(*args, **kw)


def E_mod(a, b):
    if type(a) is str:
        if _is_plain(b) or (type(b) is tuple and all(map(_is_plain, b))):
            return a % b
        return S.percent(a, b)
    return a % b


def E_ife(c, a, b):
    """a() if c else b(), without forking when both are integers."""
    if isinstance(c, SymInt):
        c = c != 0
    if isinstance(c, SymBool):
        try:
            x, y = a(), b()
        except EngineSignal:
            raise
        except Exception:
            x = y = None
        if isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt)) \
                and not isinstance(x, bool) and not isinstance(y, bool):
            return s_if(c, x, y)
    return a() if c else b()


def E_bool(conj, *fs):
    """`and`/`or` of comparisons; one symbolic condition where possible."""
    acc = None
    for i, f in enumerate(fs):
        if acc is None:
            x = f()
        else:
            try:
                x = f()
            except EngineSignal:
                raise
            except Exception:
                # short circuit
                if conj != bool(acc):
                    return acc
                acc = None
                x = f()
        if isinstance(x, SymBool):
            acc = x if acc is None else (
                s_and(acc, x) if conj else s_or(acc, x))
            continue
        if not isinstance(x, bool):
            # not a condition after all
            if acc is not None and conj != bool(acc):
                return acc
            if i + 1 < len(fs) and conj == bool(x):
                acc = None
                continue
            return x
        if x != conj:
            # decides the result, whatever the others are
            return x
        if i + 1 == len(fs) and acc is None:
            return x
    return acc if acc is not None else conj


def E_gi(obj, i):
    if isinstance(i, SymInt):
        if isinstance(obj, (list, tuple)) and obj:
            n = len(obj)
            if all(type(x) is int or isinstance(x, SymInt) for x in obj):
                if i < -n or i >= n:
                    raise IndexError('list index out of range')
                i = s_if(i < 0, i + n, i)
                if isinstance(i, SymInt):
                    i = SymInt(i.e, 0 if i.lo is None else max(0, i.lo),
                               n - 1 if i.hi is None else min(n - 1, i.hi))
                return dates.pick(list(obj), i)
            if i < -n or i >= n:
                raise IndexError('list index out of range')
            return obj[i.conc()]
        if isinstance(obj, (str, bytes, bytearray)):
            return obj[i.conc()]
    return obj[i]


# ---------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------

class Shim:
    """Stands in for a builtin type."""

    def __init__(self, real, call, kinds):
        self._real = real
        self._call = call
        self._kinds = kinds
        self.__name__ = real.__name__
        self.__qualname__ = real.__name__

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, self._kinds)

    def __subclasscheck__(self, c):
        if isinstance(c, Shim):
            c = c._real
        return issubclass(c, self._kinds)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __getattr__(self, n):
        if n.startswith('_') and not n.startswith('__'):
            raise AttributeError(n)
        f = getattr(self._real, n)
        if callable(f):
            def g(*a, **k):
                if a and type(a[0]) in (SymInt, SymStr, VDict, VSet, VBytes,
                                        VCounter, VOrderedDict):
                    return getattr(a[0], n)(*a[1:], **k)
                if self._real is str and a and n != 'maketrans':
                    return E_cm(a[0], n, *a[1:], **k)
                if self._real is dict and n == 'fromkeys':
                    return VDict.fromkeys(*a, **k)
                if self._real is int and n == 'from_bytes':
                    return _from_bytes(*a, **k)
                return f(*a, **k)
            return g
        return f

    def __getitem__(self, k):
        return self._real[k]

    def __or__(self, o):
        import typing
        return typing.Any

    __ror__ = __or__

    def __eq__(self, o):
        return o is self or o is self._real or o in self._kinds

    def __hash__(self):
        return hash(self._real)

    def __repr__(self):
        return repr(self._real)


def _from_bytes(b, byteorder='big', *, signed=False):
    bs = list(b)
    if byteorder == 'big':
        bs.reverse()
    v = 0
    for i, x in enumerate(bs):
        v = x * (1 << (8 * i)) + v
    if signed and bs:
        n = 1 << (8 * len(bs))
        v = s_if(v >= n // 2, v - n, v)
    return v


def b_str(*a, **k):
    if len(a) == 1 and not k:
        return S.to_str(a[0])
    if a and isinstance(a[0], VBytes):
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def b_int(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._ei()
        if isinstance(x, SymStr):
            return S.parse_int(x, *a[1:], **k)
        if isinstance(x, SymFrac):
            return x.__trunc__()
    return int(*a, **k)


def b_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


def b_bytes(*a, **k):
    return _mkbytes(False, *a, **k)


def b_bytearray(*a, **k):
    return _mkbytes(True, *a, **k)


def _mkbytes(mut, *a, **k):
    if not a:
        return VBytes((), mut)
    x = a[0]
    if isinstance(x, SymStr):
        return VBytes(x.encode(*a[1:], **k).b, mut)
    if isinstance(x, str):
        return VBytes(x.encode(*a[1:], **k), mut)
    if isinstance(x, SymInt):
        x = x.conc()
    if isinstance(x, int):
        return VBytes([0] * x, mut)
    return VBytes([VBytes._chk(y) for y in x], mut)


str_ = Shim(str, b_str, (str, SymStr))
int_ = Shim(int, b_int, (int, SymInt, SymBool))
bool_ = Shim(bool, b_bool, (bool, SymBool))
dict_ = Shim(dict, VDict, (dict, VDict))
set_ = Shim(set, VSet, (set, VSet))
frozenset_ = Shim(frozenset, VFrozenSet, (frozenset, VFrozenSet))
bytes_ = Shim(bytes, b_bytes, (bytes, VBytes))
bytearray_ = Shim(bytearray, b_bytearray, (bytearray, VBytes))


def b_type(*a):
    if len(a) != 1:
        return type(*a)
    t = type(a[0])
    if t in (str, SymStr):
        return str_
    if t in (bool, SymBool):
        return bool_
    if t in (int, SymInt):
        return int_
    if t in (dict, VDict):
        return dict_
    if t in (set, VSet):
        return set_
    if t is VBytes:
        return bytearray_ if a[0].mutable else bytes_
    return t


def _minmax(native, less):
    def f(*a, key=None, **kw):
        if len(a) == 1:
            xs = list(unordered(a[0]) if key is None else a[0])
            if not xs:
                if 'default' in kw:
                    return kw['default']
                return native(xs)
        else:
            xs = list(a)
        if key is None and all(isinstance(x, (int, SymInt)) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = s_if(less(x, r), x, r)
            return r
        return native(xs, key=key)
    return f


def b_ord(c):
    if isinstance(c, SymStr):
        cs = S.chars_of(c)
        if len(cs) != 1:
            raise TypeError('ord() expected a character')
        return S.code(cs[0])
    return ord(c)


def b_chr(i):
    if isinstance(i, SymInt):
        if i < 0 or i > 0x10ffff:
            raise ValueError('chr() arg not in range(0x110000)')
        return SymStr.char(i)
    return chr(i)


def b_hex(i):
    return S.fmt_value(i, '#x') if isinstance(i, SymInt) else hex(i)


def b_bin(i):
    return S.fmt_value(i, '#b') if isinstance(i, SymInt) else bin(i)


def b_oct(i):
    return S.fmt_value(i, '#o') if isinstance(i, SymInt) else oct(i)


def b_repr(x):
    if _is_plain(x):
        return repr(x)
    return S.sym_repr(x)


def b_format(x, spec=''):
    return S.fmt_value(x, spec)


def b_print(*a, sep=' ', end='\n', file=None, flush=False):
    txt = S.join(' ' if sep is None else sep, [S.to_str(x) for x in a])
    txt = S.cat(txt, '\n' if end is None else end)
    if file is None or file in (_sys.stdout, _sys.stderr):
        return
    file.write(txt)


def b_len(x):
    if isinstance(x, SymInt):
        raise TypeError("object of type 'int' has no len()")
    return len(x)


def b_any(xs):
    for x in xs:
        if x:
            return True
    return False


def b_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def b_sorted(xs, *, key=None, reverse=False):
    if key is None:
        xs = unordered(xs)
    return sorted(xs, key=key, reverse=reverse)


def b_round(x, n=None):
    if isinstance(x, SymInt):
        return x
    return round(x) if n is None else round(x, n)


def b_hash(x):
    if E.set_orders and isinstance(x, str):
        # differs from process to process
        k = ('hash', x)
        v = E.memo.get(k)
        if v is None:
            v = E.memo[k] = (z3.Int('hash!%d' % E.fresh_n), x)
            E.fresh_n += 1
        return SymInt(v[0], None, None)
    return hash(x)


# ---------------------------------------------------------------------------
# files
# ---------------------------------------------------------------------------

JSON_TREES = []


def json_text(tree):
    """The text of a JSON document, as an opaque marker for its tree."""
    JSON_TREES.append(tree)
    return '\x02J%d\x02' % (len(JSON_TREES) - 1)


def json_of(txt):
    """The tree that a text stands for, or None."""
    if not isinstance(txt, str):
        return None
    t = txt.strip()
    if len(t) > 3 and t[:2] == '\x02J' and t[-1] == '\x02' \
            and t[2:-1].isdigit():
        return JSON_TREES[int(t[2:-1])]
    if '\x02J' in t:
        return None
    try:
        return _tov(_json.loads(t))
    except ValueError:
        return None


class VFile:
    def __init__(self, name, mode, store):
        self.name = name
        self.mode = mode
        self.closed = False
        self.store = store
        self.encoding = 'utf-8'
        self.lines = None
        self.pos = 0
        if 'w' in mode or 'x' in mode:
            store[name] = []
        elif 'a' in mode:
            store.setdefault(name, [])
        else:
            self.lines = split_lines(store[name])

    def write(self, x):
        if isinstance(x, (bytes, bytearray, VBytes)):
            if 'b' not in self.mode:
                raise TypeError('write() argument must be str, not bytes')
        elif not isinstance(x, (str, SymStr)):
            raise TypeError('write() argument must be str, not %s'
                            % type(x).__name__)
        self.store[self.name].append(x)
        return 1

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def readline(self, *a):
        if self.pos >= len(self.lines):
            return ''
        r = self.lines[self.pos]
        self.pos += 1
        return r

    def readlines(self, *a):
        r = self.lines[self.pos:]
        self.pos = len(self.lines)
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if isinstance(r, str) and r == '':
            raise StopIteration
        return r

    def read(self, *a):
        return S.cat(*self.readlines())

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def seek(self, n, w=0):
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


class VStringIO(VFile):
    def __init__(self, init='', newline='\n'):
        self.store = {'': [init] if not (isinstance(init, str) and not init)
                      else []}
        self.name = ''
        self.mode = 'w'
        self.closed = False
        self.lines = split_lines(self.store[''])
        self.pos = 0

    def getvalue(self):
        return S.cat(*self.store[''])


def split_lines(pieces):
    txt = S.cat(*pieces)
    if isinstance(txt, str):
        return txt.splitlines(True) if '\r' not in txt and '\x0b' not in txt \
            and '\x0c' not in txt else [
                x + '\n' for x in txt.split('\n')[:-1]] + (
                    [txt.split('\n')[-1]] if txt.split('\n')[-1] else [])
    return SymStr.splitlines(txt, True)


class FS:
    def __init__(self):
        self.files = {}
        self.written = []


fs = FS()


def b_open(name, mode='r', *a, **k):
    if isinstance(name, SymStr):
        name = name.conc()
    name = _os.path.normpath(_os.fspath(name))
    if 'r' in mode and '+' not in mode:
        if name not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory', name)
        return VFile(name, mode, fs.files)
    if name not in fs.written:
        fs.written.append(name)
    return VFile(name, mode, fs.files)


class VPath(_pathlib.PurePosixPath):
    def open(self, mode='r', *a, **k):
        return b_open(str(self), mode)

    def read_text(self, *a, **k):
        return b_open(str(self)).read()

    def write_text(self, s, *a, **k):
        with b_open(str(self), 'w') as f:
            f.write(s)

    def exists(self):
        return vexists(str(self))

    is_file = exists

    def is_dir(self):
        return vexists(str(self)) and _os.path.normpath(str(self)) \
            not in fs.files

    def mkdir(self, *a, **k):
        pass

    def resolve(self, *a):
        return self


def vexists(p):
    p = _os.path.normpath(_os.fspath(p))
    return p in fs.files or any(f.startswith(p.rstrip('/') + '/')
                                for f in fs.files) or p in ('.', '/')


class _PathMod:
    def __getattr__(self, n):
        return getattr(_os.path, n)

    def join(self, *a):
        a = [x.conc() if isinstance(x, SymStr) else x for x in a]
        return _os.path.join(*a)

    def exists(self, p):
        return vexists(p)

    def isfile(self, p):
        return _os.path.normpath(p) in fs.files

    def isdir(self, p):
        return vexists(p) and _os.path.normpath(p) not in fs.files


class _OsMod:
    path = _PathMod()
    environ = {}
    linesep = '\n'
    sep = '/'
    devnull = '/dev/null'

    def makedirs(self, *a, **k):
        pass

    mkdir = makedirs

    def getcwd(self):
        return '.'

    def getenv(self, k, d=None):
        return d

    def fspath(self, p):
        return _os.fspath(p)

    def listdir(self, p='.'):
        raise Unsupported('os.listdir')

    def __getattr__(self, n):
        if n in ('name', 'PathLike', 'curdir', 'pardir', 'extsep'):
            return getattr(_os, n)
        raise Unsupported('os.' + n)


class _IoMod:
    StringIO = VStringIO
    open = staticmethod(b_open)

    def __getattr__(self, n):
        return getattr(_io, n)


class _PathlibMod:
    Path = VPath
    PurePath = VPath
    PosixPath = VPath

    def __getattr__(self, n):
        return getattr(_pathlib, n)


# ---------------------------------------------------------------------------
# json
# ---------------------------------------------------------------------------

def _num_key(k):
    if isinstance(k, bool):
        return 'true' if k else 'false'
    if k is None:
        return 'null'
    return S.to_str(k)


def json_tree(x, kw, depth=0):
    if depth > 60:
        raise ValueError('Circular reference detected')
    if x is None or isinstance(x, (str, SymStr, bool, int, SymInt, float)):
        return x
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (dict, VDict)):
        items = list(x.items())
        if kw.get('sort_keys'):
            items = sorted(items, key=lambda kv: kv[0])
        out = VDict()
        for k, v in items:
            if not isinstance(k, (str, SymStr, int, SymInt, bool,
                                  type(None), float)):
                if kw.get('skipkeys'):
                    continue
                raise TypeError('keys must be str, int, float, bool or None')
            out[_num_key(k)] = json_tree(v, kw, depth + 1)
        return out
    if isinstance(x, (list, tuple)):
        return [json_tree(y, kw, depth + 1) for y in x]
    d = kw.get('default')
    if d is not None:
        return json_tree(d(x), kw, depth + 1)
    raise TypeError('Object of type %s is not JSON serializable'
                    % getattr(type(x), '_kind', type(x).__name__))


def _native_tree(x):
    if isinstance(x, VDict):
        return {k: _native_tree(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_native_tree(y) for y in x]
    return x


class VJSONEncoder:
    def __init__(self, **kw):
        self.kw = kw

    def default(self, o):
        raise TypeError('Object of type %s is not JSON serializable'
                        % getattr(type(o), '_kind', type(o).__name__))

    def encode(self, o):
        kw = dict(self.kw)
        kw.setdefault('default', self.default)
        return json_text(json_tree(o, kw))

    def iterencode(self, o, _one_shot=False):
        yield self.encode(o)


class _JsonMod:
    JSONEncoder = VJSONEncoder
    JSONDecodeError = _json.JSONDecodeError

    def dump(self, obj, f, **kw):
        f.write(self.dumps(obj, **kw))

    def dumps(self, obj, **kw):
        cls = kw.pop('cls', None) or VJSONEncoder
        return cls(**kw).encode(obj)

    def load(self, f, **k):
        return self.loads(f.read())

    def loads(self, s, **k):
        t = json_of(s)
        if t is not None:
            return t
        return _tov(_json.loads(S.to_str(s) if isinstance(s, str)
                                else s.conc()))


def _deep_anysym(x):
    if isinstance(x, (dict, VDict)):
        return any(_deep_anysym(k) or _deep_anysym(v) for k, v in x.items())
    if isinstance(x, (list, tuple, VSet, set)):
        return any(_deep_anysym(y) for y in x)
    return deep_sym(x)


def _tov(x):
    if isinstance(x, dict):
        d = VDict()
        for k, v in x.items():
            d[k] = _tov(v)
        return d
    if isinstance(x, list):
        return [_tov(y) for y in x]
    return x


# ---------------------------------------------------------------------------
# other modules
# ---------------------------------------------------------------------------

class _LogMod:
    Logger = _logging.Logger
    Handler = _logging.Handler
    Formatter = _logging.Formatter

    def _noop(self, *a, **k):
        return None

    def getLogger(self, *a):
        return self

    def isEnabledFor(self, *a):
        return False

    def __getattr__(self, n):
        v = getattr(_logging, n, None)
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        if n.startswith('__'):
            raise AttributeError(n)
        return self._noop


class _SysMod:
    def __init__(self):
        self.argv = ['tzcompiler.py']
        self.overrides = {}

    def exit(self, code=None):
        raise SystemExit(code)

    stdout = _sys.stdout
    stderr = _sys.stderr

    def __getattr__(self, n):
        return getattr(_sys, n)


sys_module = _SysMod()


class ArgumentParser(_argparse.ArgumentParser):
    """The real parser on placeholder text; symbolic values are put into the
    namespace afterwards (their option's type conversion must be int)."""

    def _sym_action(self, opt):
        act = self._option_string_actions.get(opt)
        if act is None:
            for k, x in self._option_string_actions.items():
                if opt is not None and k.startswith(opt):
                    act = x
        if act is None:
            raise Unsupported('symbolic argument')
        return act

    def parse_args(self, args=None, namespace=None):
        if args is not None:
            argv = list(args)
        else:
            argv = sys_module.argv[1:]
        plain = []
        ov = []
        opt = None
        for a in argv:
            if isinstance(a, SymStr):
                act = self._sym_action(opt)
                if act.type is int_ or act.type is int:
                    v = S.parse_int(a)
                    ph = str(E.ev(v.e).as_long()) if isinstance(v, SymInt) \
                        else str(v)
                elif act.type is None:
                    v, ph = a, 'x'
                    if act.choices is not None:
                        ph = None
                        for c in act.choices:
                            if a == c:
                                v = ph = c
                                break
                        if ph is None:
                            raise SystemExit(2)
                else:
                    raise Unsupported('symbolic option %s' % opt)
                ov.append((act, v))
                plain.append(ph)
            else:
                a = str(a)
                if a.startswith('-'):
                    opt = a
                plain.append(a)
        import contextlib
        with contextlib.redirect_stderr(_io.StringIO()), \
                contextlib.redirect_stdout(_io.StringIO()):
            ns = super().parse_args(plain, namespace)
        for act, v in ov:
            if act.choices is not None and act.type is not None:
                if not E_in(v, list(act.choices)):
                    raise SystemExit(2)
            setattr(ns, act.dest, v)
        return ns


class _ArgparseMod:
    ArgumentParser = ArgumentParser

    def __getattr__(self, n):
        return getattr(_argparse, n)


class _CollMod:
    OrderedDict = VOrderedDict
    defaultdict = VDefaultDict
    Counter = VCounter

    def __getattr__(self, n):
        return getattr(_coll, n)


_SZ = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False),
       'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False),
       'q': (8, True), 'Q': (8, False)}


class _StructMod:
    error = _struct.error

    def _parse(self, fmt):
        order = '@'
        if fmt and fmt[0] in '<>=!@':
            order, fmt = fmt[0], fmt[1:]
        out = []
        n = ''
        for c in fmt:
            if c.isdigit():
                n += c
            elif c.isspace():
                continue
            else:
                out += [c] * (int(n) if n else 1)
                n = ''
        return order, out

    def pack(self, fmt, *vals):
        if not any(deep_sym(v) for v in vals):
            return VBytes(_struct.pack(fmt, *[
                v.native() if isinstance(v, VBytes) else v for v in vals]),
                False)
        order, codes = self._parse(fmt)
        if order == '@' and len(codes) > 1:
            raise Unsupported('native struct layout')
        out = []
        vi = 0
        for c in codes:
            if c == 'x':
                out.append(0)
                continue
            if c not in _SZ:
                raise Unsupported('struct code ' + c)
            v = vals[vi]
            vi += 1
            sz, sg = _SZ[c]
            if not isinstance(v, (int, SymInt)):
                raise _struct.error('required argument is not an integer')
            try:
                b = (v if isinstance(v, SymInt) else SymInt(
                    z3.IntVal(v), v, v)).to_bytes(
                        sz, 'big' if order in '>!' else 'little', signed=sg)
            except OverflowError:
                raise _struct.error('argument out of range')
            out.extend(b.b)
        if vi != len(vals):
            raise _struct.error('pack expected %d items' % vi)
        return VBytes(out, False)

    def calcsize(self, fmt):
        return _struct.calcsize(fmt)

    def unpack_from(self, fmt, buf, offset=0):
        order, codes = self._parse(fmt)
        out = []
        i = offset
        for c in codes:
            if c == 'x':
                i += 1
                continue
            sz, sg = _SZ[c]
            out.append(_from_bytes(list(buf)[i:i + sz], 'big' if order in '>!'
                                   else 'little', signed=sg))
            i += sz
        return tuple(out)

    def unpack(self, fmt, buf):
        return self.unpack_from(fmt, buf)

    def __getattr__(self, n):
        return getattr(_struct, n)


class _CopyMod:
    def __getattr__(self, n):
        return getattr(_copy, n)


def _time_mod():
    import time
    return time


MODULES = {
    're': regex.re_module,
    'datetime': dates.datetime_module,
    'calendar': dates.calendar_module,
    'json': _JsonMod(),
    'logging': _LogMod(),
    'sys': sys_module,
    'argparse': _ArgparseMod(),
    'collections': _CollMod(),
    'struct': _StructMod(),
    'os': _OsMod(),
    'os.path': _OsMod.path,
    'io': _IoMod(),
    'pathlib': _PathlibMod(),
}

PASS = {'typing', 'typing_extensions', 'itertools', 'functools', 'operator',
        'enum', 'dataclasses', 'copy', 'textwrap', 'string', 'math', 'bisect',
        'heapq', 'abc', 'contextlib', 'types', 'collections.abc', 'numbers',
        '__future__', 'warnings', 'time', 'traceback', 'pprint', 'platform',
        'binascii', 'random', 'builtins', 'inspect', 'weakref', 'hashlib',
        'zlib', 'locale', 'unicodedata', 'statistics', 'fractions', 'decimal'}


def make_builtins(importer):
    d = dict(builtins.__dict__)
    d.update({
        'str': str_, 'int': int_, 'bool': bool_, 'dict': dict_, 'set': set_,
        'frozenset': frozenset_, 'bytes': bytes_, 'bytearray': bytearray_,
        'type': Shim(type, b_type, (type,)),
        'sorted': b_sorted, 'hash': b_hash,
        'min': _minmax(min, lambda x, r: x < r),
        'max': _minmax(max, lambda x, r: x > r),
        'ord': b_ord, 'chr': b_chr, 'hex': b_hex, 'bin': b_bin, 'oct': b_oct,
        'repr': b_repr, 'format': b_format, 'print': b_print, 'open': b_open,
        'len': b_len, 'any': b_any, 'all': b_all, 'round': b_round,
        '__import__': importer,
        '__E_fstr__': E_fstr, '__E_dict__': E_dict, '__E_dictc__': E_dictc,
        '__E_set__': E_set, '__E_in__': E_in, '__E_notin__': E_notin,
        '__E_cm__': E_cm, '__E_mod__': E_mod, '__E_gi__': E_gi, '__E_ife__': E_ife, '__E_bool__': E_bool, '__E_star__': E_star,
        '__E_enter__': E.functions.add,
    })
    return d
