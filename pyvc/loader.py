"""Import hook: every module under the verified source roots is read from /repo's working tree, rewritten by
instrument.py and executed.  Sources are re-read on every run; nothing is cached on disk."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import instrument

REPO = os.environ.get('PYVC_REPO', '/repo')
ROOTS = [os.path.join(REPO, 'pkm/src')]
loaded = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path).decode('utf-8')
        tree = instrument.instrument_source(src, fullname, path)
        loaded[fullname] = path
        return compile(tree, path, 'exec', dont_inherit=True)

    def set_data(self, *a, **k):
        pass


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if not (fullname == 'pkm' or fullname.startswith('pkm.')):
            return None
        rel = fullname.replace('.', '/')
        for root in ROOTS:
            d = os.path.join(root, rel)
            if os.path.isfile(os.path.join(d, '__init__.py')):
                f = os.path.join(d, '__init__.py')
                return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f),
                                                              submodule_search_locations=[d])
            if os.path.isfile(d + '.py'):
                return importlib.util.spec_from_file_location(fullname, d + '.py', loader=Loader(fullname, d + '.py'))
            if os.path.isdir(d):  # namespace package
                spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
                spec.submodule_search_locations = [d]
                return spec
        return None


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
