"""C17: smearing resolutions"""
from pyvc.runner import harness
H = []
ID = "C17"
LY, RS, RD = "EnergySmearLY", "EnergySmearRes", "RadialSmear"
LYS = [200., 1., 520., .5, 80., 1000.]
RES = [.05, .5, .01, .999, .125]
ENS = [2.5, 1., .005, 9.995, .3, 3.5]


def smear(W):
    return W.module("echidna.core.smear")


def setup(W, cls, v, poisson=None):
    s = getattr(smear(W), cls)(**({} if poisson is None else {"poisson": poisson}))
    q = W.call(lambda: s.set_resolution(v))
    W.check("resolution set", q.ok and W.eq(s.get_resolution(), v))
    return s


@harness(H, contracts=[LY + ".get_sigma", LY + ".set_resolution", LY + ".get_resolution", RS + ".get_sigma", RS + ".set_resolution",
                       RS + ".get_resolution", RD + ".get_sigma", RD + ".set_resolution", RD + ".get_resolution"])
def widths(W):
    """width: sqrt(E/light yield), resolution*sqrt(E), the position resolution itself"""
    E = W.real("energy", lo=0, pool=ENS + [0.])
    ly = W.real("ly", gt=0, pool=LYS)
    res = W.real("res", gt=0, lt=1, pool=RES)
    pos = W.real("pos", gt=0, pool=[100., 1., .5, 2000.])
    for p in (None, True, False):
        a, b = setup(W, LY, ly, p), setup(W, RS, res, p)
        q = W.call(lambda: a.get_sigma(E))
        W.check("light yield", q.ok and W.eq(q.value, W.sqrt(W.div(E, ly))))
        q = W.call(lambda: b.get_sigma(E))
        W.check("energy resolution", q.ok and W.eq(q.value, res * W.sqrt(E)))
    q = W.call(lambda: setup(W, RD, pos).get_sigma())
    W.check("position", q.ok and W.eq(q.value, pos))


@harness(H, contracts=["Smear.calc_gaussian"])
def gaussian(W):
    """exp(-(x-mean)^2/(2 sigma^2)) / (sigma sqrt(2 pi))"""
    x, m = W.real("x", pool=ENS + [0., -3.]), W.real("mean", pool=ENS + [-1.])
    sg = W.real("sigma", gt=0, pool=[1., .1, .5, 3., 20.])
    for c in (LY, RS, RD):
        s = getattr(smear(W), c)()
        q = W.call(lambda: s.calc_gaussian(x, m, sg))
        W.check("normal density", q.ok and W.eq(q.value * sg * W.sqrt(2 * W.pi()), W.exp(-W.div((x - m) * (x - m), 2 * sg * sg))))


def poisson_spec(W, q, x, m, ly):
    """ln of the Poisson probability of n photons, n the whole number of photons for x, with mean m*ly"""
    if not W.sym:
        from scipy.stats import poisson
        return any(W.eq(q, poisson.pmf(n, m * ly)) for n in set([int(x * ly), int(x * ly + 1e-9), int(x * ly - 1e-9)]))
    n = W.floor(x * ly)
    return W.eq(q, W.exp(n * W.log(m * ly) - m * ly - W.sum(n, lambda k: W.log(k + 1))))


@harness(H, contracts=[LY + ".calc_poisson_energy"])
def poisson_ly(W):
    """Poisson probability of the photons at x, with the mean number of photons at the mean energy"""
    x, m = W.real("x", lo=0, pool=ENS + [0.]), W.real("mean", gt=0, pool=ENS)
    ly = W.real("ly", gt=0, pool=LYS)
    s = setup(W, LY, ly)
    q = W.call(lambda: s.calc_poisson_energy(x, m))
    W.check("Poisson probability", q.ok and poisson_spec(W, q.value, x, m, ly))
    x2 = W.real("x2", lo=0, pool=ENS + [0.])
    q = W.call(lambda: s.calc_poisson_energy(x2, m))
    W.check("Poisson probability of another value", q.ok and poisson_spec(W, q.value, x2, m, ly))


@harness(H, contracts=[RS + ".calc_poisson_energy"])
def poisson_res(W):
    """the same with the light yield 1/resolution^2 that has the width of the resolution"""
    x, m = W.real("x", lo=0, pool=ENS + [0.]), W.real("mean", gt=0, pool=ENS)
    res = W.real("res", gt=0, lt=1, pool=RES)
    s = setup(W, RS, res)
    q = W.call(lambda: s.calc_poisson_energy(x, m))
    W.check("Poisson probability", q.ok and poisson_spec(W, q.value, x, m, W.div(1, res * res)))
    r2 = W.real("res2", gt=0, lt=1, pool=RES)
    k = W.call(lambda: s.set_resolution(r2))
    W.check("resolution set again", k.ok)
    q = W.call(lambda: s.calc_poisson_energy(x, m))
    W.check("Poisson probability after a change", q.ok and poisson_spec(W, q.value, x, m, W.div(1, r2 * r2)))


@harness(H, contracts=["Smear.get_bounds", "Smear.set_num_sigma", "Smear.get_num_sigma", "Smear.get_bin_mean"])
def bounds(W):
    """bounds: num_sigma widths either side of the mean; the centre of bin i is low + (i+1/2) width"""
    n = W.real("num_sigma", gt=0, pool=[5., 3., 1., .5])
    m, sg = W.real("mean", pool=ENS), W.real("sigma", gt=0, pool=[.1, 1., 20.])
    lo, w, i = W.real("low", pool=[0., -1., 2.5]), W.real("width", gt=0, pool=[.1, .5, 10.]), W.int("bin", lo=0)
    for c in (LY, RS, RD):
        s = getattr(smear(W), c)()
        W.check("default of 5 sigma", W.eq(s.get_num_sigma(), 5))
        q = W.call(lambda: s.set_num_sigma(n))
        W.check("set", q.ok and W.eq(s.get_num_sigma(), n))
        q = W.call(lambda: s.get_bounds(m, sg))
        W.check("bounds", q.ok and W.eq(q.value[0], m - n * sg) and W.eq(q.value[1], m + n * sg))
        q = W.call(lambda: s.get_bin_mean(lo, i, w))
        W.check("bin centre", q.ok and W.eq(q.value, lo + i * w + W.div(w, 2)))


@harness(H, contracts=[LY + ".calc_smear_ly"])
def extra_light_yield(W):
    """sigma^2 = E/ly adds up: 1/extra + 1/current = 1/new; a finer one is refused"""
    cur, new = W.real("current", gt=0, pool=LYS), W.real("new", gt=0, pool=LYS)
    own = W.choose("current given", [True, False])
    s = smear(W).EnergySmearLY()
    other = W.real("other", gt=0, pool=LYS)
    W.call(lambda: s.set_resolution(other if own else cur))
    q = W.call(lambda: s.calc_smear_ly(new, cur) if own else s.calc_smear_ly(new))
    how = W.choose("asked", ["coarser", "finer"])
    if how == "coarser":
        W.require(W.lt(new, cur))
        W.check("accepted", q.ok)
        W.check("variances add", q.ok and W.eq(W.div(1, q.value) + W.div(1, cur), W.div(1, new)))
        W.check("positive", q.ok and W.lt(0, q.value))
    else:
        W.require(W.lt(cur, new))
        W.check("refused", q.raised("ValueError"))
    W.check("smearer unchanged", W.eq(s.get_resolution(), other if own else cur))


@harness(H, contracts=[RS + ".calc_smear_resoluton", RD + ".calc_smear_resoluton"])
def extra_resolution(W):
    """variances add: extra^2 + current^2 = new^2; a finer one is refused"""
    c = W.choose("class", [RS, RD])
    own = W.choose("current given", [True, False])
    hi = 1 if c == RS else None
    cur = W.real("current", lo=0 if own else None, gt=None if own else 0, lt=hi, pool=RES + [0.])
    new = W.real("new", lo=0, lt=hi, pool=RES + [0.])
    other = W.real("other", gt=0, lt=hi, pool=RES)
    s = getattr(smear(W), c)()
    W.call(lambda: s.set_resolution(other if own else cur))
    q = W.call(lambda: s.calc_smear_resoluton(new, cur) if own else s.calc_smear_resoluton(new))
    how = W.choose("asked", ["coarser", "finer"])
    if how == "coarser":
        W.require(W.le(cur, new) if W.sym else cur <= new)
        W.check("accepted", q.ok)
        W.check("variances add", q.ok and W.and_(W.le(0, q.value), W.eq(q.value * q.value + cur * cur, new * new)))
    else:
        W.require(W.lt(new, cur))
        W.check("refused", q.raised("ValueError"))
    W.check("smearer unchanged", W.eq(s.get_resolution(), other if own else cur))


@harness(H, contracts=[LY + ".set_resolution", RS + ".set_resolution", RD + ".set_resolution", "Smear.set_num_sigma"])
def refused(W):
    """non-positive resolutions, light yields and numbers of sigma (and energy resolutions from 1): ValueError, nothing changes"""
    c = W.choose("class", [LY, RS, RD])
    good = W.real("good", gt=0, lt=1, pool=RES)
    n = W.real("num_sigma", gt=0, pool=[5., 3., .5])
    bad = W.real("bad", pool=[0., -1., -1e-9, 1., 2., 200.])
    ok = W.and_(W.lt(0, bad), W.lt(bad, 1)) if c == RS else W.lt(0, bad)
    W.require(W.not_(ok))
    s = setup(W, c, good)
    W.call(lambda: s.set_num_sigma(n))
    x, m = W.real("x", gt=0, pool=ENS), W.real("mean", gt=0, pool=ENS)
    q = W.call(lambda: s.set_resolution(bad))
    W.check("resolution refused", q.raised("ValueError"))
    neg = W.real("negative", hi=0, pool=[0., -1., -1e-12, -5.])
    q = W.call(lambda: s.set_num_sigma(neg))
    W.check("number of sigma refused", q.raised("ValueError"))
    W.check("unchanged", W.and_(W.eq(s.get_resolution(), good), W.eq(s.get_num_sigma(), n)))
    if c == LY:
        W.check("width unchanged", W.eq(s.get_sigma(x), W.sqrt(W.div(x, good))))
    elif c == RS:
        W.check("width unchanged", W.eq(s.get_sigma(x), good * W.sqrt(x)))
