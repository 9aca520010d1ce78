"""The compiled module copclib._core (from /repo's bindings.cpp, see check.py) and the repository's Python package"""
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("COPC_REPO", "/repo")


def install():
    """Makes 'import copclib' give /repo/python/copclib over the compiled _core; returns the package"""
    sys.dont_write_bytecode = True
    so = os.environ["COPC_CORE"]
    loader = importlib.machinery.ExtensionFileLoader("copclib._core", so)
    spec = importlib.util.spec_from_file_location("copclib._core", so, loader=loader)
    core = importlib.util.module_from_spec(spec)
    sys.modules["copclib._core"] = core
    loader.exec_module(core)
    sys.path.insert(0, os.path.join(REPO, "python"))
    import copclib
    sys.path.pop(0)
    return copclib
