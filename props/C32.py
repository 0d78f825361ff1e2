"""C32: order of YAML files"""
import io
from collections import OrderedDict
from pyvc.runner import harness
H = []
ID = "C32"
WORDS = ["energy", "low", "high", "bins", "a", "z", "Z", "10", "9", "true", "null", "~", "x: y", "# no", "", "1.5", "long name with spaces", "é", "-", "yes",
         "prior", "sigma", "m_1", "1e3", "'q'", "[", "{}", "0x1f", "&a", "*a", "<<", "=", "2020-01-01", "line\nbreak", "tab\there"]


def value(W, n, depth):
    t = W.choose("kind" + n, ["number", "text", "int", "bool", "none", "dict", "list"] if depth else ["number", "text", "int"])
    if t == "number":
        return float(W.real("x" + n, pool=[0., 1.5, -2.5, 1e-7, 1e22, .1, 123456.789, 1. / 3]))
    if t == "int":
        return int(W.int("i" + n))
    if t == "text":
        return W.choose("w" + n, WORDS)
    if t == "bool":
        return W.choose("b" + n, [True, False])
    if t == "none":
        return None
    if t == "list":
        return [value(W, "%s_%d" % (n, i), depth - 1) for i in range(W.choose("n" + n, [0, 1, 3]))]
    return mapping(W, n, depth - 1)


def mapping(W, n, depth):
    d = OrderedDict()
    for i in range(W.choose("n" + n, [0, 1, 2, 4, 7])):
        k = W.choose("k%s_%d" % (n, i), WORDS)
        if k in ("<<", "="):
            k = "key"
        d[k] = value(W, "%s_%d" % (n, i), depth)
    return d


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, OrderedDict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


@harness(H, contracts=["ordered_dump", "ordered_load"], sym=False, cases=1500,
         assumes=["the yaml package is the real one of this sandbox (6.0)"],
         bound="1500 random dictionaries of up to 7 entries, nested up to 3 deep - the functions hand everything to the yaml package, whose "
               "parser is outside the verifier's reach")
def order(W):
    """dumped and loaded again: same entries in the same order at every level"""
    m = W.module("echidna.util.yaml_loader")
    d = mapping(W, "", W.choose("depth", [0, 1, 3]))
    kw = W.choose("options", [{}, {"indent": 8}, {"default_flow_style": False}, {"default_flow_style": True}])
    f = io.StringIO()
    q = W.call(lambda: m.ordered_dump(d, stream=f, **kw))
    W.check("dumped", q.ok)
    r = W.call(lambda: m.ordered_load(io.StringIO(f.getvalue())))
    W.check("loaded", r.ok)
    if q.ok and r.ok:
        W.check("same entries in the same order", same(d, r.value))
