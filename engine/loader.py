"""Loads /repo's gerber package through the mechanical rewrite (symbolic side)."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from . import transform, shadow

REPO = os.environ.get('VERIF_REPO', '/repo')
SOURCES = {}


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, ispkg):
        self.fullname, self.path, self.ispkg = fullname, path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        SOURCES[self.fullname] = src
        code = transform.transform(src, self.fullname, self.path)
        module.__dict__['__builtins__'] = shadow.make_builtins()
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'gerber' and not fullname.startswith('gerber.'):
            return None
        rel = fullname.replace('.', '/')
        p = os.path.join(REPO, rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f, True),
                                                          submodule_search_locations=[p])
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(fullname, p + '.py', loader=Loader(fullname, p + '.py', False))
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    # a name the sandbox's interpreter lacks is irrelevant to the verified code
    if 'cairocffi' not in sys.modules:
        try:
            import cairocffi  # noqa
        except Exception:
            import types
            m = types.ModuleType('cairocffi')
            sys.modules['cairocffi'] = m
