"""Imports jsonpickle from /repo's working tree, never from bytecode caches."""

import builtins
import gc
import importlib.machinery
import os
import sys
import types
import warnings

from . import around

REPO = os.environ.get("VSIM_REPO", "/repo")

builtins._vsim_real_id = id


LIBRARY = []  # code of the library's modules


class _Loader(importlib.machinery.SourceFileLoader):
    def path_stats(self, path):
        raise OSError("bytecode caches are not used")

    def source_to_code(self, data, path, **kw):
        code = super().source_to_code(data, path, **kw)
        LIBRARY.append(code)
        return code

    def set_data(self, path, data, *, _mode=0o666):
        pass


class _Finder:
    def find_spec(self, name, path=None, target=None):
        if name == "jsonpickle":
            path = [REPO]
        elif not name.startswith("jsonpickle."):
            return None
        for entry in path:
            finder = importlib.machinery.FileFinder(entry, (_Loader, [".py"]))
            spec = finder.find_spec(name)
            if spec is not None:
                return spec
        return None


def boot(heavy=False, alloc=False, backends=False, ext=False):
    """Prepare this process as the pristine zygote of all executions."""
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    warnings.simplefilter("ignore")
    around.install()
    if alloc:
        from . import alloc as alloc_mod

        alloc_mod.install()
    if backends:
        from . import bks

        bks.install()
    import jsonpickle

    where = os.path.dirname(os.path.abspath(jsonpickle.__file__))
    if where != os.path.join(REPO, "jsonpickle"):
        raise RuntimeError(f"jsonpickle imported from {where}")
    from . import sched, zoo

    zoo.register_zoo_handlers()
    if heavy:
        from . import heavy as heavy_mod

        heavy_mod.register()
    if ext:  # loaded, but not registered
        import jsonpickle.ext.gmpy
        import jsonpickle.ext.numpy
        import jsonpickle.ext.pandas

        from . import heavy as _, regzoo as _  # noqa: F811
    sched.own_locks()
    zoo_code = [f.__code__ for f in gc.get_objects() if type(f) is types.FunctionType and f.__module__ == zoo.__name__]
    for code in LIBRARY + zoo_code:
        sched.CODES.extend(c for c in sched.codes_of(code) if c not in sched.CODES)
    gc.collect()
    gc.disable()
    gc.freeze()
