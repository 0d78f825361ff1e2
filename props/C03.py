from pyvc.runner import harness
from props import _stats as S
H = []
ID = "C03"


def unchanged(name):
    def h(W):
        n, o, e = S.inputs(W)
        o0, e0 = W.copy(o), W.copy(e)
        pb = W.choose("per_bin", [False, True])
        W.call(lambda: S.statistic(W, name, pb).compute_statistic(o, e))
        eps = W.num(S.EPS)
        for what, a, a0 in (("observed", o, o0), ("expected", e, e0)):
            written = name in S.INPLACE and what == ("observed" if name == "Neyman" else "expected")
            if not written:
                W.check_all(what + " unchanged", n, lambda i: W.same(W.at(a, i), W.at(a0, i)))
            else:
                W.check_all(what + " unchanged in bins above the limit", n, lambda i: W.or_(
                    W.lt(W.at(a0, i), eps), W.same(W.at(a, i), W.at(a0, i))))
                W.known_check(what + " unchanged in bins below the limit", lambda: all(
                    W.same(a[i], a0[i]) for i in range(n) if a0[i] < eps))
                W.check_all(what + " changed to the limit at most", n, lambda i: W.or_(
                    W.same(W.at(a, i), W.at(a0, i)), W.le(W.abs(W.at(a, i)), eps)))
    h.__name__ = "unchanged_" + name
    h.__doc__ = "frame of compute_statistic of %s: the arguments' contents are not modified" % name
    return h


def same_all(W, a, a0, sh):
    return W.check_all("rejected arrays unchanged", list(sh), lambda *i: W.same(W.at(a, *i), W.at(a0, *i)))


def rejects(name):
    def h(W):
        ro = W.choose("rank o", [0, 1, 2, 3])
        re = W.choose("rank e", [0, 1, 2, 3])
        so, se = S.shapes(W, "a", ro), S.shapes(W, "b", re)
        o, e = W.array("o", so, lo=0, pool=S.POOL), W.array("e", se, lo=0, pool=S.POOL)
        o0, e0 = W.copy(o), W.copy(e)
        pb = W.choose("per_bin", [False, True])
        r = W.call(lambda: S.statistic(W, name, pb).compute_statistic(o, e))
        if ro != 1 or re != 1:
            W.check("not one-dimensional: TypeError", r.raised("TypeError"))
        elif W.not_(W.eq(so[0], se[0])):
            W.check("different length: ValueError", r.raised("ValueError"))
        else:
            W.require(False)
        same_all(W, o, o0, so)
        same_all(W, e, e0, se)
    h.__name__ = "rejects_" + name
    h.__doc__ = "exceptional postcondition of compute_statistic of %s" % name
    return h


for nm in S.ALL:
    harness(H, contracts=["TestStatistic.compute_statistic", nm + "._compute", nm + "._get_stats"])(unchanged(nm))
    harness(H, contracts=["TestStatistic.compute_statistic"])(rejects(nm))
