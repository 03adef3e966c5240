"""Import protosym from /repo/src, always from source (never from a cached .pyc)."""
import importlib.util, os, sys
from importlib.machinery import SourceFileLoader

SRC = os.environ.get("PV_SRC", "/repo/src")


class _NoCacheLoader(SourceFileLoader):
    def get_code(self, fullname):
        return self.source_to_code(self.get_data(self.path), self.path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "protosym" and not name.startswith("protosym."):
            return None
        base = os.path.join(SRC, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_NoCacheLoader(name, init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_NoCacheLoader(name, base + ".py"))
        return None


def install():
    if not any(isinstance(f, type) and f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)
    import protosym
    assert os.path.abspath(protosym.__file__).startswith(SRC + os.sep), protosym.__file__


def is_repo_file(fn):
    return fn.startswith(SRC + os.sep)
