"""C20: the built-in array minimiser"""
from pyvc.runner import harness
from collections import OrderedDict
H = []
ID = "C20"
C = ["GridSearch.find_minimum", "GridSearch._update_coords"]
POOL = [0., 1., 2., -1., 3.5, 1e-12, -7.25, 100.]


def search(W):
    c = W.module("echidna.core.config")
    P = W.module("echidna.core.parameter")
    pars = OrderedDict([("rate", {"par": P.RateParameter("rate", 1., None, 0., 2., 3), "spectrum": None})])
    fit = c.GlobalFitConfig("fit", pars)
    sp = c.SpectraConfig("s", OrderedDict([("energy_mc", P.SpectraParameter("energy_mc", 0., 10., 10))]))
    return W.module("echidna.fit.minimise").GridSearch(fit, sp, "search", use_numpy=False)


def minimum(rank):
    def h(W):
        g = search(W)
        shape = tuple(W.dim("n%d" % j) for j in range(rank))
        a = W.array("array", shape, pool=POOL)
        before = W.copy(a)
        q = W.call(lambda: g.find_minimum(a))
        W.check("accepted", q.ok)
        W.check("unchanged: shape", W.eq(tuple(W.shape(a)), shape))
        W.check_all("unchanged", shape, lambda *i: W.same(W.at(a, *i), W.at(before, *i)))
        if not q.ok:
            return
        m, p = q.value
        W.check("full index tuple", isinstance(p, tuple) and len(p) == rank)
        W.check("in range", W.and_(*[W.and_(W.le(0, x), W.lt(x, n)) for x, n in zip(p, shape)]))
        W.check("the value at that index", W.same(W.at(before, *p), m))
        W.check_all("smallest of all", shape, lambda *i: W.not_(W.lt(W.at(before, *i), m)))
        for l in range(rank):       # positions that agree with p before axis l and are smaller on it
            W.check_all("first position (axis %d)" % l, (p[l],) + shape[l + 1:],
                        lambda *i: W.not_(W.same(W.at(before, *(tuple(p[:l]) + tuple(i))), m)))
    h.__name__ = "minimum_rank%d" % rank
    h.__doc__ = "smallest value and its first position for arrays of rank %d of any shape" % rank
    return h


for r in (1, 2, 3, 4, 5):
    harness(H, contracts=C, size=3, cases=600, assumes=["ranks 1 to 5"])(minimum(r))
