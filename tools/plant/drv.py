"""Runs tzcompiler on TZ text in a scratch directory."""
import io, json, os, shutil, sys, tempfile, types, contextlib, logging
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ.get('DEMO_REPO', os.getcwd()),
                                'src'))

FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
         'etcetera', 'europe', 'northamerica', 'southamerica']


class ZP:
    """Stand-in for acetime.ZoneProcessor."""
    size = staticmethod(lambda zone, year: 2)
    terminal = staticmethod(lambda zone, year: True)
    seen = {}

    def __init__(self, info):
        self.info = info
        ZP.seen[str(info['name'])] = info

    def init_for_year(self, year):
        self.year = year

    def get_buffer_sizes(self):
        n = ZP.size(self.info['name'], self.year)
        return types.SimpleNamespace(active_size=1, buffer_size=n)

    def is_terminal_year(self, year):
        return ZP.terminal(self.info['name'], year)


def _stub():
    names = ['acetime', 'acetime.typing', 'acetime.zonedb', 'acetime.zone_processor',
             'acetime.zoneinfo', 'acetime.zone_info', 'acetime.zone_infos',
             'acetime.zone_policies', 'acetime.common', 'acetime.types',
             'acetime.zone_processor_types', 'acetime.zonedb_types']

    class Mod(types.ModuleType):
        __path__ = []

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return ZP if n == 'ZoneProcessor' else dict
    for n in names:
        sys.modules[n] = Mod(n)


_stub()
logging.disable(logging.CRITICAL)


class Out:
    exc = None
    json = None


def run(text, scope='extended', start=2000, until=2030, langs='python',
        actions='json,zonedb', args=(), include=None, files=None):
    from acetimetools import tzcompiler
    tmp = tempfile.mkdtemp(prefix='demo.')
    argv, cwd = sys.argv, os.getcwd()
    o = Out()
    o.files = {}
    try:
        os.mkdir(tmp + '/in')
        os.mkdir(tmp + '/out')
        for f in FILES:
            with open(tmp + '/in/' + f, 'w') as h:
                h.write(text if f == 'africa' else (files or {}).get(f, ''))
        os.chdir(tmp)
        sys.argv = ['tzcompiler.py', '--input_dir', 'in', '--output_dir',
                    'out', '--scope', scope, '--start_year', str(start),
                    '--until_year', str(until), '--languages', langs,
                    '--actions', actions, '--tz_version', '2024a',
                    '--db_namespace', 'zonedb'] + list(args)
        if not {'arduino', 'c'} & set(langs.split(',')):
            sys.argv.append('--skip_bufestimator')
        if include is not None:
            with open(tmp + '/in/inc', 'w') as h:
                h.write(include)
            sys.argv += ['--include_list', 'in/inc']
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            try:
                tzcompiler.main()
            except (Exception, SystemExit) as e:
                o.exc = e
        for f in os.listdir(tmp + '/out'):
            with open(tmp + '/out/' + f) as h:
                o.files[f] = h.read()
        for f in o.files:
            if f.endswith('.json'):
                o.json = json.loads(o.files[f])
    finally:
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return o


def expect(cond, msg):
    if not cond:
        print('FAIL: ' + msg)
        sys.exit(1)
