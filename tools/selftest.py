#!/usr/bin/env python3
"""Self-test of the symbolic engine: the instrumented tool must behave like
the real one on the system's TZ database, and the calendar models like
datetime.  Run by setup_cmd; reads no property."""
import datetime
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + '/tools')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from harness import env, tz                        # noqa: E402
from harness import ctx as C                       # noqa: E402
from pysym.core import E                           # noqa: E402
import zi                                          # noqa: E402


def calendar():
    for y in list(range(1800, 2200)) + [1, 4, 100, 400, 9999]:
        for m in range(1, 13):
            nd = 31 if m == 12 else (datetime.date(y, m + 1, 1)
                                     - datetime.date(y, m, 1)).days
            assert tz.days_in(y, m) == nd, (y, m)
            for d in (1, 15, nd):
                assert tz.weekday(y, m, d) == \
                    datetime.date(y, m, d).isoweekday(), (y, m, d)


def fractions():
    """SymFrac (n / d) against Python floats."""
    import math
    from pysym.core import SymFrac
    for d in (2, 3, 7, 10, 60, 900):
        for n in range(-2000, 2001, 1 if d < 8 else 7):
            f, x = SymFrac(n, d), n / d
            assert (f.__trunc__(), f.__floor__(), f.__ceil__(), f.__round__(),
                    f.is_integer(), bool(f)) == (
                int(x), math.floor(x), math.ceil(x), round(x),
                x.is_integer(), bool(x)), (n, d)
            for k in (n // d, -(-n // d), 0, 3.0):
                assert (f < k, f <= k, f == k, f > k, f >= k, f != k) == (
                    x < k, x <= k, x == k, x > k, x >= k, x != k), (n, d, k)


def both(lines, opts):
    got = {}

    def fn():
        got['sym'] = env.run_main(C.Ctx(), lines, opts, observe=False)
    E.reset_all()
    E.explore(fn, lambda s: got.setdefault('st', s))
    real = env.run_main(C.Ctx({}), lines, opts, observe=False)
    a = got['sym']
    assert got['st'] == 'done', got['st']
    assert a.kind() == real.kind(), (a.exc, real.exc)
    assert C.evalm(a.json) == real.json, 'json differs'
    assert sorted(a.files) == sorted(real.files)
    for k in a.files:
        assert C.evalm(a.files[k]) == real.files[k], k
    return real


def main():
    t0 = time.time()
    calendar()
    fractions()
    lines = zi.expand() if os.path.exists(
        '/usr/share/zoneinfo/tzdata.zi') else None
    if lines is None:
        print('no tzdata.zi: engine comparison skipped')
        return
    n = 0
    for lang, scope in (('python', 'extended'), ('arduino', 'extended'),
                        ('c', 'complete'), ('go', 'complete'),
                        ('arduino', 'basic')):
        r = both(lines, env.default_opts(
            scope, 2000, 2050,
            actions='json,zonedb,zonelist', languages=lang,
            skip_bufestimator=False, nostrict=True))
        n += len(r.files)
        assert r.exc is None, r.exc
        print(lang, r.json['num_zones'], 'zones', '%.1f s' % (
            time.time() - t0))
    print('selftest ok: %d files equal, %.1f s' % (n, time.time() - t0))


if __name__ == '__main__':
    main()
