from pyvc.runner import harness
from props import _stats as S
H = []
ID = "C01"


def make(name):
    def h(W):
        n, o, e = S.inputs(W, name=name)
        o0, e0 = W.copy(o), W.copy(e)
        r = W.call(lambda: S.statistic(W, name, False).compute_statistic(o, e))
        W.check("no exception", r.ok)
        if r.ok:
            W.check("total is the sum over bins of the formula",
                    S.close(W, r.value, W.sum(n, lambda i: S.spec(W, name, W.at(o0, i), W.at(e0, i))), n))
    h.__name__ = "total_" + name
    h.__doc__ = "compute_statistic (total mode) of %s == sum over bins of its formula" % name
    return h


for nm in S.ALL:
    harness(H, contracts=["TestStatistic.compute_statistic", nm + "._compute"])(make(nm))


def integers(name):
    def h(W):
        n = W.dim("n", lo=1)
        o = W.array("o", (n,), lo=0, k="i", pool=[0, 1, 2, 3, 10])
        e = W.array("e", (n,), lo=0, k="i", pool=[0, 1, 2, 3, 10])
        o0, e0 = W.copy(o), W.copy(e)
        r = W.call(lambda: S.statistic(W, name, False).compute_statistic(o, e))
        W.known_check("integer arrays with an empty bin", r.ok and W.eq(
            r.value, W.sum(n, lambda i: S.spec(W, name, W.at(o0, i), W.at(e0, i)))))
    h.__name__ = "integers_" + name
    h.__doc__ = "total of %s for integer arrays with empty bins" % name
    return h


for nm in S.INPLACE:
    harness(H, sym=False, bound="known finding, run-time evaluation only")(integers(nm))
