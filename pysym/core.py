"""Symbolic values and the path explorer."""
import time
import z3

# ---------------------------------------------------------------------------
# control exceptions (BaseException: the code under test catches Exception)
# ---------------------------------------------------------------------------


class EngineSignal(BaseException):
    pass


class ReplayMismatch(BaseException):
    """Internal error: a path prefix does not replay."""


class PathEnd(EngineSignal):
    """The current path is abandoned (assumption false)."""


class Unsupported(EngineSignal):
    """The path reached an operation the engine does not model."""


class BudgetExceeded(EngineSignal):
    """Budget of the job is used up."""


# ---------------------------------------------------------------------------
# engine
# ---------------------------------------------------------------------------


class Engine:
    def __init__(self):
        self.functions = set()
        self.reset_all()

    def reset_all(self):
        self.stats = dict(paths=0, infeasible=0, unsupported=0, branches=0,
                          queries=0, obligations=0, discharged=0,
                          trivially_true=0, solver_s=0.0, forks=0,
                          unknown=0)
        self.active = False
        self.solver = None
        self.deadline = None
        self.max_paths = None
        self.unsupported_msgs = {}
        self.set_orders = False
        self.order_budget = None    # sets not in insertion order; None: any
        self.rlimit_ms = 20000

    # -- solver plumbing
    def _new_solver(self):
        s = z3.SimpleSolver()
        s.set('timeout', self.rlimit_ms)
        s.set('random_seed', 7)
        return s

    def _check(self, *extra):
        """One query; returns 'sat'/'unsat'/'unknown' and a model or None."""
        t0 = time.perf_counter()
        self.stats['queries'] += 1
        s = self.solver
        if extra:
            s.push()
            for e in extra:
                s.add(e)
        r = s.check()
        m = s.model() if r == z3.sat else None
        if extra:
            s.pop()
        self.stats['solver_s'] += time.perf_counter() - t0
        if r == z3.unknown:
            # second opinion with a fresh non-incremental solver
            t0 = time.perf_counter()
            s2 = z3.Solver()
            s2.set('timeout', self.rlimit_ms * 3)
            for a in s.assertions():
                s2.add(a)
            for e in extra:
                s2.add(e)
            r = s2.check()
            self.stats['queries'] += 1
            m = s2.model() if r == z3.sat else None
            self.stats['solver_s'] += time.perf_counter() - t0
        if r == z3.unknown:
            self.stats['unknown'] += 1
            return 'unknown', None
        return ('sat' if r == z3.sat else 'unsat'), m

    def ev(self, e):
        """Evaluate a z3 expr under the current path's model."""
        return self.model.eval(e, model_completion=True)

    # -- path life cycle
    def start_path(self, prefix, model):
        self.active = True
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.model = model
        self.solver = self._new_solver()
        self.known = {}
        self.defs = {}
        self.pc = []
        self.inputs = {}
        self.decls = {}
        self.pending = []
        self.perm_log = []
        self.fresh_n = 0
        self.memo = {}
        self.stale = model is None and bool(prefix)
        if model is None:
            r, m = self._check()
            self.model = m

    def add_pc(self, cond):
        self.solver.add(cond)
        self.pc.append(cond)

    def assume(self, cond):
        cond = _raw_bool(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self._assume_z3(cond)

    def _assume_z3(self, cond):
        self.add_pc(cond)
        # keep the model consistent with the path
        if z3.is_true(self.ev(cond)):
            return
        r, m = self._check()
        if r == 'unsat':
            raise PathEnd()
        if r == 'unknown':
            raise Unsupported('solver unknown in assume')
        self.model = m

    def branch(self, cond):
        """cond: z3 BoolRef.  Fork and return a Python bool."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not self.active:
            raise Unsupported('symbolic branch outside a path')
        neg = False
        if z3.is_not(cond):
            cond = cond.arg(0)
            neg = True
        key = cond.get_id()
        hit = self.known.get(key)
        if hit is not None:
            return hit[0] != neg
        self.stats['branches'] += 1
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            if ent[0] != 'b' or ent[2] != cond.hash():
                raise ReplayMismatch('path replay diverged at %d' % self.pos)
            v = ent[1]
            self.pos += 1
            self.taken.append(ent)
            self.known[key] = (v, cond)
            self.add_pc(cond if v else z3.Not(cond))
            return v != neg
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('time')
        self._refresh()
        v = z3.is_true(self.ev(cond))
        other = z3.Not(cond) if v else cond
        r, m = self._check(other)
        ent = ('b', v, cond.hash())
        flip = ('b', not v, ent[2])
        if r == 'sat':
            self.work.append((self.taken + [flip], m))
            self.stats['forks'] += 1
            self.taken.append(ent)
            self.pos += 1
            self.prefix = self.taken
            self.known[key] = (v, cond)
            self.add_pc(cond if v else z3.Not(cond))
            return v != neg
        if r == 'unknown':
            # cannot rule the other side out: explore it, but honestly note it
            self.work.append((self.taken + [flip], None))
            self.stats['forks'] += 1
        # the other side is infeasible: v is implied, still recorded so that
        # replays of the prefix need no query
        self.taken.append(ent)
        self.pos += 1
        self.prefix = self.taken
        self.known[key] = (v, cond)
        if r == 'unknown':
            self.add_pc(cond if v else z3.Not(cond))
        return v != neg

    def choose(self, e):
        """Fork over the feasible values of an integer term."""
        if not self.active:
            raise Unsupported('symbolic value outside a path')
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        key = ('=', e.get_id())
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        self.stats['branches'] += 1
        excl, v = (), None
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            if ent[0] != 'c' or ent[3] != e.hash():
                raise ReplayMismatch('path replay diverged at %d' % self.pos)
            _, excl, v, _ = ent
            if v is not None:
                self.pos += 1
                self.taken.append(ent)
                self.add_pc(e == v)
                self.memo[key] = (v, e)
                return v
            self.prefix = self.prefix[:self.pos]
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('time')
        self._refresh()
        v = self.ev(e).as_long()
        if v in excl:
            r, m = self._check(*[e != x for x in excl])
            if r == 'unsat':
                raise PathEnd()
            if r != 'sat':
                raise Unsupported('solver unknown')
            self.model = m
            v = self.ev(e).as_long()
        excl = excl + (v,)
        r, m = self._check(*[e != x for x in excl])
        if r != 'unsat':
            if len(excl) > CONCRETIZE_LIMIT:
                raise Unsupported('concretisation of a wide integer')
            self.work.append((self.taken + [('c', excl, None, e.hash())],
                              m if r == 'sat' else None))
            self.stats['forks'] += 1
        self.taken.append(('c', excl[:-1], v, e.hash()))
        self.pos += 1
        self.prefix = self.taken
        self.add_pc(e == v)
        self.memo[key] = (v, e)
        return v

    def permute(self, xs):
        """xs in an arbitrary order (forks; each call its own order).

        Up to four elements every order; beyond that the given order, the
        reversed one and the rotations by one."""
        xs = list(xs)
        self.perm_log.append(len(xs))
        if self.set_orders == 'reverse':
            return xs[::-1]
        if self.order_budget == 0:
            return xs
        if len(xs) > 4:
            k = self._pick(4)
            out = [xs, xs[::-1], xs[1:] + xs[:1], xs[-1:] + xs[:-1]][k]
        else:
            rest, out = list(xs), []
            while len(rest) > 1:
                out.append(rest.pop(self._pick(len(rest))))
            out += rest
        if self.order_budget is not None and any(
                a is not b for a, b in zip(out, xs)):
            self.order_budget -= 1
        return out

    def _pick(self, n):
        v = z3.Int('order!%d' % self.fresh_n)
        self.fresh_n += 1
        self.add_pc(z3.And(v >= 0, v < n))
        if not 0 <= self.ev(v).as_long() < n:
            r, m = self._check()
            if r != 'sat':
                raise PathEnd()
            self.model = m
        return self.choose(v)

    def _refresh(self):
        """Make sure the model satisfies the path (unknown flips)."""
        if self.stale:
            r, m = self._check()
            if r == 'unsat':
                raise PathEnd()
            if r != 'sat':
                raise Unsupported('solver unknown')
            self.model = m
            self.stale = False

    def fresh_int(self, name, lo=None, hi=None):
        self.fresh_n += 1
        v = z3.Int('%s!%d' % (name, self.fresh_n))
        return v

    def explore(self, fn, on_path, max_paths=None, deadline=None):
        """Run fn() over all feasible paths; on_path(status) after each."""
        self.work = [([], None)]
        self.deadline = deadline
        complete = True
        n = 0
        while self.work:
            if max_paths is not None and n >= max_paths:
                complete = False
                break
            if deadline is not None and time.time() > deadline:
                complete = False
                break
            prefix, model = self.work.pop()
            n += 1
            self.start_path(list(prefix), model)
            if model is None and prefix:
                # flip whose feasibility was unknown
                pass
            status = 'done'
            try:
                fn()
            except PathEnd:
                status = 'infeasible'
                self.stats['infeasible'] += 1
            except Unsupported as e:
                status = 'unsupported'
                self.stats['unsupported'] += 1
                k = str(e)
                self.unsupported_msgs[k] = self.unsupported_msgs.get(k, 0) + 1
                complete = False
            except BudgetExceeded:
                complete = False
                status = 'budget'
            except RecursionError:
                status = 'unsupported'
                self.stats['unsupported'] += 1
                self.unsupported_msgs['RecursionError'] = 1
                complete = False
            finally:
                pass
            if status == 'budget':
                break
            if status == 'done':
                self.stats['paths'] += 1
            try:
                if on_path(status) == 'stop':
                    complete = False
                    break
            except BudgetExceeded:
                complete = False
                break
            finally:
                self.active = False
        self.active = False
        return complete


E = Engine()


# ---------------------------------------------------------------------------
# symbolic booleans and integers
# ---------------------------------------------------------------------------


def _raw_bool(x):
    """bool | SymBool | z3 -> True/False or z3 expr"""
    if isinstance(x, SymBool):
        x = x.e
    if isinstance(x, (bool, int)):
        return bool(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def __int__(self):
        return 1 if E.branch(self.e) else 0

    __index__ = __int__

    def _ei(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return s_and(self, o)
        return self._ei() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return s_or(self, o)
        return self._ei() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return self != o
        return self._ei() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else s_not(self)
        if isinstance(o, (int, SymInt)):
            return self._ei() == o
        return False

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % (self.e,)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(bool(self), name)


def _bool_arith(name):
    def f(self, *a):
        return getattr(self._ei(), name)(*a)
    return f


for _n in ('add radd sub rsub mul rmul floordiv rfloordiv mod rmod lt le gt ge '
           'neg pos abs lshift rlshift rshift rrshift divmod rdivmod').split():
    setattr(SymBool, '__%s__' % _n, _bool_arith('__%s__' % _n))


def s_not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def s_and(*xs):
    out = []
    for x in xs:
        x = _raw_bool(x)
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return mkbool(out[0] if len(out) == 1 else z3.And(*out))


def s_or(*xs):
    out = []
    for x in xs:
        x = _raw_bool(x)
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return mkbool(out[0] if len(out) == 1 else z3.Or(*out))


def _lohi(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return x, x


def _ze(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def mkint(e, lo, hi):
    if lo is not None and lo == hi:
        return lo
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, lo, hi)


def s_if(c, a, b):
    """If-then-else without forking (ints, bools, or identical values)."""
    c = _raw_bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return mkbool(z3.If(c, _zb(a), _zb(b)))
    if isinstance(a, (int, SymInt, SymBool)) \
            and isinstance(b, (int, SymInt, SymBool)):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        al, ah = _lohi(_asint(a))
        bl, bh = _lohi(_asint(b))
        lo = None if al is None or bl is None else min(al, bl)
        hi = None if ah is None or bh is None else max(ah, bh)
        return mkint(z3.If(c, _ze(a), _ze(b)), lo, hi)
    return a if E.branch(c) else b


def _zb(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def _asint(x):
    if isinstance(x, SymBool):
        return x._ei()
    if isinstance(x, bool):
        return int(x)
    return x


def _isnum(x):
    return isinstance(x, (int, SymInt, SymBool))


CONCRETIZE_LIMIT = 1024


class SymInt:
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo=None, hi=None):
        self.e = e
        self.lo = lo
        self.hi = hi

    # -- concretisation
    def conc(self):
        """Fork over all feasible values; returns a Python int."""
        return E.choose(self.e)

    def __index__(self):
        return self.conc()

    def __int__(self):
        return self.conc()

    def __float__(self):
        return float(self.conc())

    def __bool__(self):
        if self.lo is not None and self.lo > 0:
            return True
        if self.hi is not None and self.hi < 0:
            return True
        return E.branch(self.e != 0)

    def __hash__(self):
        return hash(self.conc())

    def __repr__(self):
        return 'SymInt(%s in [%s,%s])' % (self.e, self.lo, self.hi)

    # -- arithmetic
    def __add__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _asint(o)
        if isinstance(o, int) and o == 0:
            return self
        ol, oh = _lohi(o)
        lo = None if self.lo is None or ol is None else self.lo + ol
        hi = None if self.hi is None or oh is None else self.hi + oh
        return mkint(self.e + _ze(o), lo, hi)

    __radd__ = __add__

    def __sub__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _asint(o)
        if isinstance(o, int) and o == 0:
            return self
        ol, oh = _lohi(o)
        lo = None if self.lo is None or oh is None else self.lo - oh
        hi = None if self.hi is None or ol is None else self.hi - ol
        return mkint(self.e - _ze(o), lo, hi)

    def __rsub__(self, o):
        if not _isnum(o):
            return NotImplemented
        return (-self) + o

    def __neg__(self):
        return mkint(-self.e, None if self.hi is None else -self.hi,
                     None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self.hi is not None and self.hi <= 0:
            return -self
        hi = None
        if self.lo is not None and self.hi is not None:
            hi = max(-self.lo, self.hi)
        return SymInt(z3.If(self.e >= 0, self.e, -self.e), 0, hi)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.conc()
        if not _isnum(o):
            return NotImplemented
        o = _asint(o)
        if isinstance(o, SymInt):
            sr = _width(self)
            orr = _width(o)
            if orr is not None and orr <= 64 and (sr is None or orr <= sr):
                o = o.conc()
            elif sr is not None and sr <= 64:
                return o * self.conc()
            else:
                return SymInt(self.e * o.e)
        if o == 0:
            return 0
        if o == 1:
            return self
        lo, hi = self.lo, self.hi
        if o > 0:
            lo = None if lo is None else lo * o
            hi = None if hi is None else hi * o
        else:
            lo, hi = (None if hi is None else hi * o,
                      None if lo is None else lo * o)
        return mkint(self.e * o, lo, hi)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _asint(o)
        if isinstance(o, SymInt):
            o = o.conc()
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return (-self) // (-o)
        if o == 1:
            return self
        lo = None if self.lo is None else self.lo // o
        hi = None if self.hi is None else self.hi // o
        return mkint(self.e / z3.IntVal(o), lo, hi)

    def __rfloordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        if not isinstance(o, SymInt) and self.lo is not None \
                and 0 <= o < self.lo:
            return 0
        return o // self.conc()

    def __mod__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _asint(o)
        if isinstance(o, SymInt):
            o = o.conc()
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return -((-self) % (-o))
        if o == 1:
            return 0
        lo, hi = 0, o - 1
        if self.lo is not None and self.hi is not None:
            if self.lo // o == self.hi // o:
                # same block: linear
                return self - (self.lo // o) * o
            if 0 <= self.lo and self.hi < hi:
                hi = self.hi
        return mkint(self.e % z3.IntVal(o), lo, hi)

    def __rmod__(self, o):
        if not _isnum(o):
            return NotImplemented
        if not isinstance(o, SymInt) and self.lo is not None \
                and 0 <= o < self.lo:
            return o
        return o % self.conc()

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return divmod(o, self.conc())

    def __truediv__(self, o):
        if isinstance(o, SymInt):
            o = o.conc()
        if type(o) is int and o != 0 and abs(o) < 1 << 20 \
                and self.lo is not None and self.hi is not None \
                and -(1 << 30) < self.lo and self.hi < 1 << 30:
            return SymFrac(self, o) if o > 0 else SymFrac(-self, -o)
        return self.conc() / o

    def __rtruediv__(self, o):
        return o / self.conc()

    def __pow__(self, o, m=None):
        if isinstance(o, SymInt):
            o = o.conc()
        if m is None and isinstance(o, int) and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.conc(), o, m) if m is not None else self.conc() ** o

    def __rpow__(self, o):
        return o ** self.conc()

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.conc()
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.conc()

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.conc()
        return self // (1 << o)

    def __rrshift__(self, o):
        return o >> self.conc()

    def __and__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _asint(o)
        if isinstance(o, SymInt):
            return _bit_and_sym(self, o)
        if o == 0:
            return 0
        if o == -1:
            return self
        if o < 0:
            # x & o == x - (x & ~o)
            return self - (self & ~o)
        r = 0
        i = 0
        m = o
        while m:
            if m & 1:
                w = 0
                while (m >> w) & 1:
                    w += 1
                part = (self >> i) % (1 << w) if i else self % (1 << w)
                r = part * (1 << i) + r
                m >>= w
                i += w
            else:
                m >>= 1
                i += 1
        return r

    __rand__ = __and__

    def __or__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _asint(o)
        return self + o - (self & o)

    __ror__ = __or__

    def __xor__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _asint(o)
        return self + o - (self & o) * 2

    __rxor__ = __xor__

    # -- comparisons
    def __eq__(self, o):
        if o is self:
            return True
        if not _isnum(o):
            if isinstance(o, float):
                return self.conc() == o
            return False
        o = _asint(o)
        ol, oh = _lohi(o)
        if self.lo is not None and oh is not None and self.lo > oh:
            return False
        if self.hi is not None and ol is not None and self.hi < ol:
            return False
        if self.lo is not None and self.lo == self.hi == ol == oh:
            return True
        return mkbool(self.e == _ze(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return s_not(r)

    def _cmp(self, o, op):
        if isinstance(o, float):
            o = _float_bound(o, op)
        if not _isnum(o):
            return NotImplemented
        o = _asint(o)
        ol, oh = _lohi(o)
        sl, sh = self.lo, self.hi
        if op == '<':
            if sh is not None and ol is not None and sh < ol:
                return True
            if sl is not None and oh is not None and sl >= oh:
                return False
            return mkbool(self.e < _ze(o))
        if op == '<=':
            if sh is not None and ol is not None and sh <= ol:
                return True
            if sl is not None and oh is not None and sl > oh:
                return False
            return mkbool(self.e <= _ze(o))
        if op == '>':
            r = self._cmp(o, '<=')
        else:
            r = self._cmp(o, '<')
        return s_not(r)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    # -- int API
    def bit_length(self):
        a = abs(self)
        if not isinstance(a, SymInt):
            return a.bit_length()
        n = a.hi.bit_length() if a.hi is not None else 80
        if a.hi is None and a >= 1 << n:
            return self.conc().bit_length()
        r = n
        for i in range(n - 1, -1, -1):
            r = s_if(a < (1 << i), i, r)
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .containers import VBytes
        lo = -(1 << (8 * length - 1)) if signed else 0
        hi = (1 << (8 * length - (1 if signed else 0))) - 1
        if self < lo or self > hi:
            raise OverflowError('int too big to convert')
        x = self
        if signed:
            x = s_if(x < 0, x + (1 << (8 * length)), x)
        bs = [(x >> (8 * i)) & 0xff if isinstance(x, SymInt)
              else (x >> (8 * i)) & 0xff for i in range(length)]
        if byteorder == 'big':
            bs.reverse()
        return VBytes(bs, False)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def __format__(self, spec):
        # reached only from uninstrumented formatting
        return format(self.conc(), spec)

    def __str__(self):
        return str(self.conc())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymFrac:
    """The float n / d: n symbolic and below 2**30, d a positive constant
    below 2**20.

    Within these bounds the rounded quotient lies on the same side of every
    integer as the exact one, and equals an integer only when it is one, so
    truncation, rounding to an integer and comparison with integers are exact
    integer arithmetic; everything else continues with the concrete value.
    """
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    def conc(self):
        n = self.n
        return (n.conc() if isinstance(n, SymInt) else n) / self.d

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __trunc__(self):
        return s_if(self.n >= 0, self.n // self.d, -((-self.n) // self.d))

    def __round__(self, nd=None):
        if nd is not None:
            return round(self.conc(), nd)
        q, r = self.n // self.d, self.n % self.d
        return s_if(2 * r < self.d, q,
                    s_if(2 * r == self.d, q + q % 2, q + 1))

    def __int__(self):
        return int(self.conc())

    def __float__(self):
        return self.conc()

    def __bool__(self):
        return bool(self.n != 0)

    def __hash__(self):
        return hash(self.conc())

    def __neg__(self):
        return SymFrac(-self.n, self.d)

    def __pos__(self):
        return self

    def is_integer(self):
        return self.n % self.d == 0

    def _bound(self, o):
        if isinstance(o, float) and o == o and abs(o) < 1 << 60 \
                and o == int(o):
            o = int(o)
        return o if _isnum(o) else None

    def _rel(self, o, op):
        import operator as _o
        f = getattr(_o, op)
        b = self._bound(o)
        if b is None:
            return f(self.conc(), o.conc() if isinstance(o, SymFrac) else o)
        return f(self.n, _asint(b) * self.d)

    def __lt__(self, o):
        return self._rel(o, 'lt')

    def __le__(self, o):
        return self._rel(o, 'le')

    def __gt__(self, o):
        return self._rel(o, 'gt')

    def __ge__(self, o):
        return self._rel(o, 'ge')

    def __eq__(self, o):
        return self._rel(o, 'eq')

    def __ne__(self, o):
        return self._rel(o, 'ne')

    def __repr__(self):
        return 'SymFrac(%r / %d)' % (self.n, self.d)

    def __str__(self):
        return str(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)


def _frac_arith(name):
    import operator as _o
    f = getattr(_o, name)

    def op(self, o):
        return f(self.conc(), o.conc() if isinstance(o, (SymInt, SymFrac))
                 else o)

    def rop(self, o):
        return f(o.conc() if isinstance(o, (SymInt, SymFrac)) else o,
                 self.conc())
    return op, rop


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    _a, _b = _frac_arith(_n)
    setattr(SymFrac, '__%s__' % _n, _a)
    setattr(SymFrac, '__r%s__' % _n, _b)


def _float_bound(f, op):
    import math
    if f == float('inf'):
        return 10 ** 40
    if f == float('-inf'):
        return -10 ** 40
    if f == int(f):
        return int(f)
    if op in ('<', '>='):
        return math.ceil(f)
    return math.floor(f)


def _width(x):
    if x.lo is None or x.hi is None:
        return None
    return x.hi - x.lo + 1


def _bit_and_sym(a, b):
    wa, wb = _width(a), _width(b)
    if wb is not None and wb <= 64:
        return a & b.conc()
    if wa is not None and wa <= 64:
        return b & a.conc()
    hi = max(a.hi or 0, b.hi or 0)
    if a.lo is None or b.lo is None or a.lo < 0 or b.lo < 0 \
            or a.hi is None or b.hi is None:
        raise Unsupported('symbolic & symbolic')
    r = 0
    i = 0
    while (1 << i) <= hi:
        ba = (a >> i) % 2
        bb = (b >> i) % 2
        r = s_if(s_and(ba == 1, bb == 1), 1 << i, 0) + r
        i += 1
    return r


def is_sym(x):
    return isinstance(x, (SymInt, SymBool)) or getattr(x, '_is_symstr', False)


def deep_sym(x, depth=0):
    """True when a value (nested in tuples/lists) holds a symbolic part."""
    t = type(x)
    if t is str or t is int or t is bool or x is None:
        return False
    if isinstance(x, (SymInt, SymBool)):
        return True
    if getattr(x, '_is_symstr', False):
        return True
    if isinstance(x, (tuple, list)) and depth < 6:
        for y in x:
            if deep_sym(y, depth + 1):
                return True
        return False
    if getattr(x, '_is_vbytes', False):
        return any(isinstance(b, SymInt) for b in x.b)
    return False


def deep_eq(a, b):
    """Symbolic-friendly equality that does not fork."""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if len(a) != len(b):
            return False
        return s_and(*[deep_eq(x, y) for x, y in zip(a, b)])
    r = (a == b)
    if isinstance(r, (bool, SymBool)):
        return r
    return bool(r)
