"""Reads /repo's current sources and translates them, mechanically and in memory, to Python 3.

The same translated text is (a) interpreted symbolically by pyvc.interp and (b) compiled and imported by CPython
for replays and run-time contract checks.  The translation is lib2to3's, nothing is edited by hand; what it does:
print statement -> call, iteritems/keys/values/items -> list(...)/iter, except X, e -> except X as e, exec stmt ->
call, unicode/long/xrange renames.  Nothing is dropped.  `/` keeps the meaning of the Python that runs it here (3).
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys
import types
import warnings

REPO = os.environ.get("PYVC_REPO", "/repo")
_FIX_ALWAYS = ["dict", "except", "exec", "has_key", "long", "ne", "next", "numliterals", "raise", "raw_input",
               "reduce", "repr", "throw", "tuple_params", "types", "unicode", "xrange", "standarderror", "itertools",
               "itertools_imports", "basestring", "funcattrs", "methodattrs", "zip", "map", "filter"]
_cache = {}


def module_path(name):
    base = os.path.join(REPO, *name.split("."))
    if os.path.isfile(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.isfile(base + ".py"):
        return base + ".py", False
    return None, False


def translate(path):
    """Python 3 text of a source file."""
    if path in _cache:
        return _cache[path]
    with open(path, encoding="utf-8") as f:
        text = f.read()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from lib2to3 import refactor
        fixers = list(_FIX_ALWAYS)
        try:
            ast.parse(text, path)
        except SyntaxError:
            fixers.append("print")
        tool = refactor.RefactoringTool(["lib2to3.fixes.fix_" + x for x in fixers],
                                        {"print_function": "print" not in fixers})
        try:
            out = str(tool.refactor_string(text + "\n", path))
        except Exception:
            if "print" in fixers:
                raise
            out = text      # Python 3 only syntax, which lib2to3's grammar does not know: needs no translation
        ast.parse(out, path)
    _cache[path] = out
    return out


# ---------------------------------------------------------------- stand-ins for packages that are not installed

class _FakeH5Attrs(dict):
    pass


def make_stub_modules():
    """ROOT, rat and h5py are not installed: stand-ins record what the code hands to them (assumed contracts)."""
    from . import stubs
    return stubs.modules()


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name == "echidna" or name.startswith("echidna."):
            p, pkg = module_path(name)
            if p is None:
                return None
            spec = importlib.machinery.ModuleSpec(name, self, origin=p, is_package=pkg)
            spec.has_location = True
            if pkg:
                spec.submodule_search_locations = [os.path.dirname(p)]
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p = module.__spec__.origin
        module.__file__ = p
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(translate(p), p, "exec")
        exec(code, module.__dict__)


_installed = False


def install_concrete():
    """Make `import echidna...` load the translated current sources into CPython."""
    global _installed
    if _installed:
        return
    _installed = True
    for n, m in make_stub_modules().items():
        if n in ("h5py",):
            sys.modules[n] = m
        else:
            sys.modules.setdefault(n, m)
    sys.meta_path.insert(0, _Finder())


def concrete(name):
    install_concrete()
    import importlib
    return importlib.import_module(name)
