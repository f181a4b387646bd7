"""Repository modules executed anew, as in a process of its own."""
import contextlib
import importlib.machinery
import sys

OWN = ("helpers", "data_formatting", "railway_solvers", "railway_lines", "train_utils")
_open = open
_codes = {}


class Loader(importlib.machinery.SourceFileLoader):
    """Repository modules, compiled once and executed anew whenever they are imported."""

    def get_code(self, name):
        path = self.get_filename(name)
        if path not in _codes:
            with _open(path, "rb") as f:
                _codes[path] = compile(f.read(), path, "exec", dont_inherit=True)
        return _codes[path]

    def exec_module(self, module):
        super().exec_module(module)
        if Finder.loaded is not None:
            Finder.loaded(self.name, module)


class Finder:
    loaded = None

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] not in OWN:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(name, spec.loader.path)
        return spec


def own():
    return [n for n in sys.modules if n.split(".")[0] in OWN]


class Session:
    """Module state of one process; entered as often as wanted, never mixed with others."""

    def __init__(self):
        self.modules = {}

    @contextlib.contextmanager
    def active(self):
        saved = {n: sys.modules.pop(n) for n in own()}
        sys.modules.update(self.modules)
        sys.meta_path.insert(0, Finder)
        try:
            yield self
        finally:
            sys.meta_path.remove(Finder)
            self.modules = {n: sys.modules.pop(n) for n in own()}
            sys.modules.update(saved)
