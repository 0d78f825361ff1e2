"""loads the (Python 2) sources of the current directory into Python 3 for a demonstration; stand-ins for h5py and ROOT"""

import ast
import importlib.abc
import importlib.machinery
import os
import sys
import types
import warnings

REPO = os.getcwd()
_FIX_ALWAYS = ["dict", "except", "exec", "has_key", "long", "ne", "next", "numliterals", "raise", "raw_input",
               "reduce", "repr", "throw", "tuple_params", "types", "unicode", "xrange", "standarderror", "itertools",
               "itertools_imports", "basestring", "funcattrs", "methodattrs", "zip", "map", "filter"]
_cache = {}


def module_path(name):
    base = os.path.join(REPO, *name.split("."))
    if os.path.isfile(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.isfile(base + ".py"):
        return base + ".py", False
    return None, False


def translate(path):
    """Python 3 text of a source file."""
    if path in _cache:
        return _cache[path]
    with open(path, encoding="utf-8") as f:
        text = f.read()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from lib2to3 import refactor
        fixers = list(_FIX_ALWAYS)
        try:
            ast.parse(text, path)
        except SyntaxError:
            fixers.append("print")
        tool = refactor.RefactoringTool(["lib2to3.fixes.fix_" + x for x in fixers],
                                        {"print_function": "print" not in fixers})
        try:
            out = str(tool.refactor_string(text + "\n", path))
        except Exception:
            if "print" in fixers:
                raise
            out = text      # Python 3 only syntax, which lib2to3's grammar does not know: needs no translation
        ast.parse(out, path)
    _cache[path] = out
    return out


# ---------------------------------------------------------------- stand-ins for packages that are not installed

class _FakeH5Attrs(dict):
    pass


def make_stub_modules():
    """ROOT, rat and h5py are not installed: stand-ins record what the code hands to them (assumed contracts)."""
    return modules()


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name == "echidna" or name.startswith("echidna."):
            p, pkg = module_path(name)
            if p is None:
                return None
            spec = importlib.machinery.ModuleSpec(name, self, origin=p, is_package=pkg)
            spec.has_location = True
            if pkg:
                spec.submodule_search_locations = [os.path.dirname(p)]
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p = module.__spec__.origin
        module.__file__ = p
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(translate(p), p, "exec")
        exec(code, module.__dict__)


_installed = False


def install_concrete():
    """Make `import echidna...` load the translated current sources into CPython."""
    global _installed
    if _installed:
        return
    _installed = True
    for n, m in make_stub_modules().items():
        if n in ("h5py",):
            sys.modules[n] = m
        else:
            sys.modules.setdefault(n, m)
    sys.meta_path.insert(0, _Finder())


def concrete(name):
    install_concrete()
    import importlib
    return importlib.import_module(name)

import sys
import types

FILES = {}      # path -> _Group (the "disk" of the h5py stand-in)


class _Attrs(dict):
    pass


class _Dataset(object):
    def __init__(self, data):
        self._d = data.copy() if hasattr(data, "copy") else data

    @property
    def value(self):
        return self._d.copy() if hasattr(self._d, "copy") else self._d

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self.value
        return self._d[k]

    @property
    def shape(self):
        return self._d.shape


class _Group(object):
    def __init__(self):
        self.attrs = _Attrs()
        self._items = {}

    def create_group(self, name):
        if name in self._items:
            raise ValueError("Unable to create group (name already exists)")
        self._items[name] = _Group()
        return self._items[name]

    def create_dataset(self, name, data=None, compression=None, **kw):
        if name in self._items:
            raise ValueError("Unable to create dataset (name already exists)")
        self._items[name] = _Dataset(data)
        return self._items[name]

    def keys(self):
        return list(self._items)

    def __contains__(self, k):
        return k in self._items

    def __delitem__(self, k):
        del self._items[k]

    def __getitem__(self, k):
        g = self
        for part in k.split("/"):
            if part not in g._items:
                raise KeyError("Unable to open object (object '%s' doesn't exist)" % part)
            g = g._items[part]
        return g


class _File(object):
    def __init__(self, path, mode="r"):
        if mode == "r":
            if path not in FILES:
                raise IOError("Unable to open file %s" % path)
        elif mode == "w":
            FILES[path] = _Group()
        else:
            FILES.setdefault(path, _Group())
        self._g = FILES[path]

    def __enter__(self):
        return self._g

    def __exit__(self, *a):
        return False


def modules():
    h5 = types.ModuleType("h5py")
    h5.File = _File
    rat = types.ModuleType("rat")
    root = types.ModuleType("ROOT")

    class TObject(object):
        pass

    class _DU(object):
        DSReader = None

    class RAT(object):
        DU = _DU
    root.TObject = TObject
    root.RAT = RAT
    root.TChain = None
    out = {"h5py": h5, "rat": rat, "ROOT": root}
    return out
