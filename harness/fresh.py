"""pipit as a new process has it: modules loaded anew, so nothing kept in them from earlier use"""
import contextlib
import importlib.util
import sys

CODE = {}
NAMES = ["pipit", "pipit.trace", "pipit.graph", "pipit.util", "pipit.util.cct", "pipit.util.config", "pipit.writers.chrome_writer", "pipit.readers.otf2_reader",
         "pipit.readers.hpctoolkit_reader", "pipit.readers.projections_reader", "pipit.readers.nsight_reader"]


class Loader:
    """loads from source as usual, compiling each file once"""

    def __init__(self, inner):
        self.inner = inner

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = self.inner.path
        if path not in CODE:
            CODE[path] = compile(self.inner.get_data(path), path, "exec")
        exec(CODE[path], module.__dict__)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "pipit" and not name.startswith("pipit."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and hasattr(spec.loader, "get_data"):
            spec.loader = Loader(spec.loader)
        return spec


def ours():
    return {n: m for n, m in sys.modules.items() if n == "pipit" or n.startswith("pipit.")}


@contextlib.contextmanager
def fresh():
    old = ours()
    for n in old:
        del sys.modules[n]
    sys.meta_path.insert(0, Finder)
    try:
        for n in NAMES:
            with contextlib.suppress(ModuleNotFoundError):
                importlib.import_module(n)
        patches = sys.modules.get("symx.patches")
        if patches is not None and patches.active():
            patches.inject(list(ours().values()))
        yield
    finally:
        sys.meta_path.remove(Finder)
        for n in ours():
            del sys.modules[n]
        sys.modules.update(old)
