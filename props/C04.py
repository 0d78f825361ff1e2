from pyvc.runner import harness
from props import _stats as S
H = []
ID = "C04"


def nonneg(name, pb):
    def h(W):
        n, o, e = S.inputs(W, name=name, up=pb and name == "BakerCousinsChiUp")
        r = W.call(lambda: S.statistic(W, name, pb).compute_statistic(o, e))
        W.check("no exception", r.ok)
        if not r.ok:
            return
        if pb:
            W.check_all("no bin is negative", W.shape(r.value)[0], lambda i: W.ge(W.at(r.value, i), 0))
        else:
            W.check("total is not negative", W.ge(r.value, 0))
    h.__name__ = ("bins" if pb else "total") + "_nonnegative_" + name
    h.__doc__ = "%s >= 0" % name
    return h


def zero(name, pb):
    def h(W):
        n = W.dim("n", lo=0)
        o = W.array("o", (n,), lo="1e-34", pool=[1., 2., .5, 3., 10., 1e-30, 7.25, lambda r: 10. ** r.uniform(-8, 3)])
        e = W.copy(o)
        r = W.call(lambda: S.statistic(W, name, pb).compute_statistic(o, e))
        W.check("no exception", r.ok)
        if not r.ok:
            return
        if pb:
            W.check_all("every bin is zero", W.shape(r.value)[0], lambda i: W.eq(W.at(r.value, i), 0))
        else:
            W.check("total is zero", W.eq(r.value, 0))
    h.__name__ = ("bins" if pb else "total") + "_perfect_" + name
    h.__doc__ = "%s == 0 when observed == expected" % name
    return h


for nm in S.ALL[:-1]:
    for b in (False, True):
        harness(H, contracts=[nm + ("._get_stats" if b else "._compute")])(nonneg(nm, b))
        harness(H, contracts=[nm + ("._get_stats" if b else "._compute")])(zero(nm, b))
