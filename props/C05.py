from pyvc.runner import harness
from props import _stats as S
H = []
ID = "C05"
D = [0., .5, 1., -1., 2., -2.5, 3., 10., -12.5, .125]


def pull(name):
    def h(W):
        v, p = W.real("value"), W.real("prior")
        s = W.real("sigma")
        W.require(W.not_(W.eq(s, 0)))
        st = S.statistic(W, name, W.choose("per_bin", [False, True]))
        r = W.call(lambda: st.get_penalty_term(v, p, s))
        W.check("no exception", r.ok)
        if r.ok:
            x = W.div(v - p, s)
            f = W.num("0.5") if name == "BakerCousinsLL" else W.num("1")
            W.check("quadratic pull", W.eq(r.value, f * x * x))
    h.__name__ = "pull_" + name
    h.__doc__ = "get_penalty_term of %s == ((value-prior)/sigma)^2 (half for BakerCousinsLL)" % name
    return h


def shape(name):
    def h(W):
        p, s = W.real("prior"), W.real("sigma")
        d1, d2 = W.real("d1", pool=D), W.real("d2", lo=0, pool=[abs(x) for x in D])
        W.require(W.not_(W.eq(s, 0)))
        st = S.statistic(W, name, False)
        z = W.call(lambda: st.get_penalty_term(p, p, s))
        a = W.call(lambda: st.get_penalty_term(p + d2, p, s))
        b = W.call(lambda: st.get_penalty_term(p - d2, p, s))
        c = W.call(lambda: st.get_penalty_term(p + d1, p, s))
        W.check("no exception", z.ok and a.ok and b.ok and c.ok)
        if z.ok and a.ok and b.ok and c.ok:
            W.check("zero at the prior", W.eq(z.value, 0))
            W.check("symmetric", W.eq(a.value, b.value))
            if W.lt(abs(d1), d2):
                W.check("increases with the distance", W.lt(c.value, a.value))
    h.__name__ = "pull_shape_" + name
    h.__doc__ = "penalty of %s: zero at the prior, symmetric, increasing" % name
    return h


def whole(name):
    def h(W):
        v, p = W.real("value"), W.real("prior")
        iv, ip = W.choose("int value", [False, True]), W.choose("int prior", [False, True])
        v = W.int("ivalue") if iv else v
        p = W.int("iprior") if ip else p
        s = W.int("sigma", lo=1)
        st = S.statistic(W, name, False)
        a = W.call(lambda: st.get_penalty_term(v, p, s))
        b = W.call(lambda: st.get_penalty_term(v * W.num("1"), p * W.num("1"), s * W.num("1")))
        W.check("no exception", a.ok and b.ok)
        if a.ok and b.ok:
            W.check("whole-number sigma as the equal float", W.eq(a.value, b.value))
    h.__name__ = "whole_numbers_" + name
    h.__doc__ = "penalty of %s: integer arguments give the value of the equal floats" % name
    return h


for nm in S.ALL:
    for f in (pull, shape, whole):
        harness(H, contracts=[nm + ".get_penalty_term"])(f(nm))
