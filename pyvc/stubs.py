"""Stand-ins for ROOT, rat and h5py (not installed here). Assumed contracts: h5py keeps attributes and datasets
under the names they were stored with, in groups of a file; ROOT/rat only deliver events."""
import sys
import types

FILES = {}      # path -> _Group (the "disk" of the h5py stand-in)


class _Attrs(dict):
    pass


class _Dataset(object):
    def __init__(self, data):
        self._d = data.copy() if hasattr(data, "copy") else data

    @property
    def value(self):
        return self._d.copy() if hasattr(self._d, "copy") else self._d

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self.value
        return self._d[k]

    @property
    def shape(self):
        return self._d.shape


class _Group(object):
    def __init__(self):
        self.attrs = _Attrs()
        self._items = {}

    def create_group(self, name):
        if name in self._items:
            raise ValueError("Unable to create group (name already exists)")
        self._items[name] = _Group()
        return self._items[name]

    def create_dataset(self, name, data=None, compression=None, **kw):
        if name in self._items:
            raise ValueError("Unable to create dataset (name already exists)")
        self._items[name] = _Dataset(data)
        return self._items[name]

    def keys(self):
        return list(self._items)

    def __contains__(self, k):
        return k in self._items

    def __delitem__(self, k):
        del self._items[k]

    def __getitem__(self, k):
        g = self
        for part in k.split("/"):
            if part not in g._items:
                raise KeyError("Unable to open object (object '%s' doesn't exist)" % part)
            g = g._items[part]
        return g


class _File(object):
    def __init__(self, path, mode="r"):
        if mode == "r":
            if path not in FILES:
                raise IOError("Unable to open file %s" % path)
        elif mode == "w":
            FILES[path] = _Group()
        else:
            FILES.setdefault(path, _Group())
        self._g = FILES[path]

    def __enter__(self):
        return self._g

    def __exit__(self, *a):
        return False


def modules():
    h5 = types.ModuleType("h5py")
    h5.File = _File
    rat = types.ModuleType("rat")
    root = types.ModuleType("ROOT")

    class TObject(object):
        pass

    class _DU(object):
        DSReader = None

    class RAT(object):
        DU = _DU
    root.TObject = TObject
    root.RAT = RAT
    root.TChain = None
    out = {"h5py": h5, "rat": rat, "ROOT": root}
    return out
