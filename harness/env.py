"""Runs the code under test, symbolically or for real."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile
import types

from pysym.core import E, EngineSignal, SymInt, Unsupported
from pysym.strings import SymStr, cat
from pysym import shims
from pysym.loader import Loader
from pysym.containers import VDict, VSet, VBytes

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

ZONE_FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
              'etcetera', 'europe', 'northamerica', 'southamerica']


# ---------------------------------------------------------------------------
# stub of the acetime package (not installed): the estimator's environment
# ---------------------------------------------------------------------------

class StubState:
    """Answers of the stubbed ZoneProcessor."""
    factory = None          # callable(zone_info) -> object


STUB = StubState()


class DefaultZP:
    """Every year needs one transition; terminal at once."""

    def __init__(self, zone_info):
        self.zone_info = zone_info

    def init_for_year(self, year):
        self.year = year

    def get_buffer_sizes(self):
        return types.SimpleNamespace(active_size=1, buffer_size=1)

    def is_terminal_year(self, year):
        return True


def _zone_processor(zone_info):
    f = STUB.factory or DefaultZP
    return f(zone_info)


def make_stubs():
    ac = types.ModuleType('acetime')
    zp = types.ModuleType('acetime.zone_processor')
    ty = types.ModuleType('acetime.typing')
    zp.ZoneProcessor = _zone_processor
    for n in ('ZoneRule', 'ZonePolicy', 'ZonePolicyMap', 'ZoneEra',
              'ZoneInfoMap', 'ZoneInfo'):
        setattr(ty, n, dict)
    ac.zone_processor = zp
    ac.typing = ty
    ac.__path__ = []
    return {'acetime': ac, 'acetime.zone_processor': zp, 'acetime.typing': ty}


_LOADER = None


def loader():
    global _LOADER
    if _LOADER is None:
        _LOADER = Loader(SRC, make_stubs())
        _LOADER.load('acetimetools.tzcompiler')
    return _LOADER


_REAL = False


def real_setup():
    global _REAL
    if _REAL:
        return
    for k, v in make_stubs().items():
        sys.modules[k] = v
    sys.path.insert(0, SRC)
    sys.dont_write_bytecode = True
    import logging
    logging.disable(logging.CRITICAL)
    _REAL = True


def module(ctx, name):
    """The (instrumented or real) module under test."""
    full = 'acetimetools.' + name
    if ctx.sym:
        return loader().load(full)
    real_setup()
    import importlib
    with _quiet():
        return importlib.import_module(full)


@contextlib.contextmanager
def _quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


class Result:
    def __init__(self):
        self.exc = None         # exception (SystemExit included)
        self.files = {}         # name -> text (str or SymStr)
        self.names = []         # every file written, relative to the cwd
        self.json = None        # dict
        self.args = {}

    @property
    def ok(self):
        return self.exc is None

    def kind(self):
        return None if self.exc is None else type(self.exc).__name__


def _argv(opts, extra):
    argv = []
    for k, v in opts.items():
        if v is None or v is False:
            continue
        argv.append('--' + k)
        if v is True:
            continue
        if isinstance(v, SymInt):
            v = SymStr.num(v)
        elif not isinstance(v, SymStr):
            v = str(v)
        argv.append(v)
    return argv + list(extra)


def default_opts(scope='extended', start=2000, until=2100, **kw):
    o = dict(input_dir='in', output_dir='out', actions='json',
             languages='python', scope=scope, tz_version='2024a',
             start_year=start, until_year=until, db_namespace='zonedb',
             skip_bufestimator=True)
    o.update(kw)
    return o


def run_main(ctx, lines, opts, include=None, zp=None, name='main',
             observe=True):
    """Run tzcompiler.main() on TZ source lines.

    lines: list of lines (one file, 'africa') or dict file -> list of lines
    (None: the file is missing).
    Text may be symbolic.  Returns a Result."""
    if not isinstance(lines, dict):
        lines = {'africa': lines}
    argv = ['tzcompiler.py'] + _argv(opts, [])
    if include is not None:
        argv += ['--include_list', 'in/include.txt']
    res = _run_sym(ctx, lines, argv, include, zp) if ctx.sym else \
        _run_real(ctx, lines, argv, include, zp)
    if observe:
        ctx.observe(name + '.exc', res.kind())
        ctx.observe(name + '.json', res.json)
        for f in sorted(res.files):
            ctx.observe(name + ':' + f, res.files[f])
    return res


def _content(ls):
    out = []
    for x in ls:
        out.append(x)
        out.append('\n')
    return cat(*out)


def _run_sym(ctx, lines, argv, include, zp):
    ld = loader()
    fs = shims.fs
    del shims.JSON_TREES[:]
    fs.files = {}
    fs.written = []
    for f in ZONE_FILES:
        if lines.get(f, []) is not None:
            fs.files['in/' + f] = [_content(lines.get(f, []))]
    if include is not None:
        fs.files['in/include.txt'] = [_content(include)]
    shims.sys_module.argv = argv
    STUB.factory = zp
    res = Result()
    mod = ld.mods['acetimetools.tzcompiler']
    try:
        mod.main()
    except EngineSignal:
        raise
    except SystemExit as e:
        res.exc = e
    except Exception as e:
        res.exc = e
    finally:
        STUB.factory = None
    for f in fs.written:
        if f not in res.names:
            res.names.append(f)
        pieces = fs.files.get(f, [])
        nm = os.path.basename(f)
        txt = cat(*pieces)
        if nm.endswith('.json'):
            res.json = shims.json_of(txt)
        else:
            res.files[nm] = txt
    return res


def _run_real(ctx, lines, argv, include, zp):
    mod = module(ctx, 'tzcompiler')
    tmp = tempfile.mkdtemp(prefix='vf.')
    cwd = os.getcwd()
    old = sys.argv
    res = Result()
    try:
        os.mkdir(tmp + '/in')
        os.mkdir(tmp + '/out')
        for f in ZONE_FILES:
            if lines.get(f, []) is None:
                continue
            with open(tmp + '/in/' + f, 'w', encoding='utf-8') as h:
                h.write(_content(lines.get(f, [])))
        if include is not None:
            with open(tmp + '/in/include.txt', 'w') as h:
                h.write(_content(include))
        os.chdir(tmp)
        sys.argv = argv
        STUB.factory = zp
        with _quiet():
            try:
                mod.main()
            except SystemExit as e:
                res.exc = e
            except Exception as e:
                res.exc = e
        for f in sorted(os.listdir(tmp)):
            if os.path.isfile(f):
                res.names.append(f)
        for f in sorted(os.listdir(tmp + '/out')):
            res.names.append('out/' + f)
            with open(tmp + '/out/' + f, encoding='utf-8') as h:
                t = h.read()
            if f.endswith('.json'):
                try:
                    res.json = json.loads(t)
                except ValueError:
                    res.json = None
            else:
                res.files[f] = t
    finally:
        STUB.factory = None
        sys.argv = old
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return res
