"""Loads the package under test, instrumented, from the working tree."""
import os
import sys
import types
import hashlib

from .core import Unsupported
from .instrument import instrument
from . import shims


class Loader:
    def __init__(self, src_root, stubs=None):
        self.root = src_root
        self.mods = {}
        self.stubs = dict(stubs or {})
        self.builtins = shims.make_builtins(self.import_)
        self.functions = 0
        self.sources = {}

    def _path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path, pkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError("No module named '%s'" % name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = parent
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        sys.modules.setdefault(name, None) if False else None
        src = ''
        if os.path.exists(path):
            with open(path, encoding='utf-8') as f:
                src = f.read()
        self.sources[name] = src
        try:
            code = instrument(src, path, name)
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if name in shims.MODULES:
            return shims.MODULES[name]
        if name in self.stubs or top in self.stubs:
            m = self.stubs.get(name)
            if m is None:
                raise ModuleNotFoundError("No module named '%s'" % name)
            if fromlist:
                return m
            return self.stubs[top]
        if self._path(name)[0] is not None:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and hasattr(m, '__path__') \
                            and self._path(name + '.' + f)[0]:
                        self.load(name + '.' + f)
                return m
            return self.mods[top]
        if name in shims.PASS or top in shims.PASS:
            return __import__(name, None, None, fromlist, 0)
        if top in sys.stdlib_module_names:
            return __import__(name, None, None, fromlist, 0)
        raise ModuleNotFoundError("No module named '%s'" % name)
