from pyvc.runner import harness
from props import _stats as S
H = []
ID = "C02"


def entries(name):
    def h(W):
        n, o, e = S.inputs(W, name=name, up=name == "BakerCousinsChiUp")
        o0, e0 = W.copy(o), W.copy(e)
        r = W.call(lambda: S.statistic(W, name, True).compute_statistic(o, e))
        W.check("no exception", r.ok)
        if r.ok:
            W.check("one-dimensional", len(W.shape(r.value)) == 1)
            W.check("one entry per bin", W.eq(W.shape(r.value)[0], n))
            W.check_all("entry i is the formula of bin i", n, lambda i: S.close(
                W, W.at(r.value, i), S.spec(W, name, W.at(o0, i), W.at(e0, i))))
    h.__name__ = "entries_" + name
    h.__doc__ = "per-bin compute_statistic of %s: entry i == formula(bin i), one entry per bin" % name
    return h


def adds_up(name):
    def h(W):
        n, o, e = S.inputs(W, name=name, up=name == "BakerCousinsChiUp")
        o1, e1 = W.copy(o), W.copy(e)
        t = W.call(lambda: S.statistic(W, name, False).compute_statistic(o, e))
        r = W.call(lambda: S.statistic(W, name, True).compute_statistic(o1, e1))
        W.check("no exception", r.ok and t.ok)
        if r.ok and t.ok:
            W.check("entries add up to the total", S.close(W, W.sum(n, lambda i: W.at(r.value, i)), t.value, n))
    h.__name__ = "adds_up_" + name
    h.__doc__ = "per-bin entries of %s add up to its total" % name
    return h


for nm in S.ALL:
    harness(H, contracts=[nm + "._get_stats"])(entries(nm))
    harness(H, contracts=[nm + "._get_stats", nm + "._compute"])(adds_up(nm))


@harness(H, sym=False, bound="known finding, run-time evaluation only")
def excess_BakerCousinsChiUp(W):
    """per-bin values of BakerCousinsChiUp when a bin has more observed than expected"""
    n, o, e = S.inputs(W)
    o0, e0 = W.copy(o), W.copy(e)
    r = W.call(lambda: S.statistic(W, "BakerCousinsChiUp", True).compute_statistic(o, e))
    if not any(o0[i] > e0[i] for i in range(n)):
        W.require(False)
    W.known_check("per-bin values with an excess", r.ok and len(r.value) == n and all(
        W.eq(r.value[i], S.spec(W, "BakerCousinsChiUp", o0[i], e0[i])) for i in range(n)))
    W.check("fails with ValueError only", r.ok or r.raised("ValueError"))
