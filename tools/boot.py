"""Makes `import opensfm` use /repo's python code with the modules of build/opensfm.

Only the eight extension modules come from /verif/build; every python module is
imported from the repository itself.
"""
import importlib.machinery
import importlib.util
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EXT = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build")), "opensfm")
MODULES = {"pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry", "pymap", "pyrobust", "pysfm"}


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        pkg, _, mod = name.rpartition(".")
        if pkg == "opensfm" and mod in MODULES:
            p = os.path.join(EXT, mod + ".so")
            loader = importlib.machinery.ExtensionFileLoader(name, p)
            return importlib.util.spec_from_file_location(name, p, loader=loader)
        return None


def install():
    sys.dont_write_bytecode = True
    if not any(f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


install()
