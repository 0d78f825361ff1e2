"""C18: grids of values of fit parameters"""
from pyvc.runner import harness
H = []
ID = "C18"
A = ["limits, prior and number of points are arbitrary: low < high, for the logarithmic scale 0 < low, for the deviation scale "
     "low <= prior <= high and at least 3 points (1 or 2 when the prior is a limit)"]
C = ["FitParameter.__init__", "FitParameter.get_values", "FitParameter.get_value_at", "FitParameter.get_value_index",
     "FitParameter.set_par"]
LOW = [0., -1., .5, 1., -10., 2., .25, 3.]
SCALES = ["linear", "log", "deviation"]


def limits(W, scale, tag=""):
    """(low, high, prior) valid for the scale"""
    if scale == "log":
        low, d = W.real("low" + tag, gt=0, pool=[.5, 1., .25, 2., 10., 1e-3]), W.real("range" + tag, gt=0, pool=[1., 2., .5, 10., 99., 0.125])
        return low, low + d, low + d
    if scale == "linear":
        low, d = W.real("low" + tag, pool=LOW), W.real("range" + tag, gt=0, pool=[1., 2., .5, 10., 99., 0.125])
        return low, low + d, W.real("prior" + tag, pool=[0., .5, 1., 3.])
    prior = W.real("prior" + tag, pool=[0., .5, 1., -3., 2.])
    a, b = W.real("below" + tag, lo=0, pool=[0., 1., 2., .5, 10., .01]), W.real("above" + tag, lo=0, pool=[0., 1., 2., .5, 10., .01])
    W.require(W.or_(W.lt(0, a), W.lt(0, b)))
    return prior - a, prior + b, prior


def points(W, scale, low, high, prior, tag=""):
    n = W.dim("points" + tag, lo=1 if W.sym else (3 if scale == "deviation" else 1), hi=None if W.sym else 9)
    if scale == "deviation":
        W.require(W.or_(W.le(3, n), W.and_(W.le(2, n), W.or_(W.eq(prior, low), W.eq(prior, high)))))
    return n


def correct(W, p, scale, low, high, prior, n):
    """the values of p are those documented"""
    q = W.call(lambda: p.get_values())
    W.check("returns values", q.ok)
    if not q.ok:
        return
    v = q.value
    W.check("number of values", W.eq(tuple(W.shape(v)), (n,)))
    if not W.sym and tuple(W.shape(v)) != (n,):
        return
    W.check("starts at the low limit", W.eq(W.at(v, 0), low))
    W.check("ends at the high limit", W.implies(W.lt(1, n), W.eq(W.at(v, n - 1), high)))
    W.check_all("increasing", (n, n), lambda i, j: W.implies(W.lt(i, j), W.lt(W.at(v, i), W.at(v, j))))
    if scale == "linear":
        W.check_all("equally spaced", (n,), lambda i: W.eq((W.at(v, i) - low) * (n - 1), (high - low) * i))
    elif scale == "log":
        W.check_all("equally spaced in the logarithm", (n,), lambda i: W.and_(W.lt(0, W.at(v, i)), W.eq(
            W.log(W.at(v, i)) * (n - 1), W.log(low) * (n - 1 - i) + W.log(high) * i)))
    else:
        k = W.call(lambda: p.get_value_index(prior))
        W.check("contains the prior", k.ok)
        if not k.ok:
            return
        k = k.value
        W.check("position of the prior", W.and_(W.le(0, k), W.lt(k, n), W.eq(W.at(v, k), prior)))
        W.check_all("deviations below the prior", (n,), lambda i: W.implies(W.lt(i, k), W.and_(W.lt(W.at(v, i), prior), W.eq(
            W.log(1 + prior - W.at(v, i)) * k, W.log(1 + prior - low) * (k - i)))))
        W.check_all("deviations above the prior", (n,), lambda i: W.implies(W.lt(k, i), W.and_(W.lt(prior, W.at(v, i)), W.eq(
            W.log(1 + W.at(v, i) - prior) * (n - 1 - k), W.log(1 + high - prior) * (i - k)))))


def flags(scale):
    return {"linear": {}, "log": {"logscale": True}, "deviation": {"logscale_deviation": True}}[scale]


def mk(scale):
    def new(W):
        P = W.module("echidna.core.parameter")
        low, high, prior = limits(W, scale)
        n = points(W, scale, low, high, prior)
        p = P.ScaleParameter("energy_scale", prior, None, low, high, n, "energy", **flags(scale))
        if not W.sym and W.choose("asked before", [False, True]):
            p.get_values()
        correct(W, p, scale, low, high, prior, n)
    new.__name__ = "values_" + scale
    new.__doc__ = "values of a %s scale: number, limits, order and spacing" % scale

    def look(W):
        P = W.module("echidna.core.parameter")
        low, high, prior = limits(W, scale)
        n = points(W, scale, low, high, prior)
        p = P.ShiftParameter("energy_shift", prior, None, low, high, n, "energy", **flags(scale))
        v = p.get_values()
        i = W.int("index", lo=0, hi=None if W.sym else n - 1)
        W.require(W.lt(i, n))
        q = W.call(lambda: p.get_value_index(p.get_value_at(i)))
        W.check("index of the value at an index", q.ok and W.eq(q.value, i))
        q = W.call(lambda: p.get_value_at(i))
        W.check("value at an index", q.ok and W.same(q.value, W.at(v, i)))
        x = W.real("value", pool=[0., .5, 1., 1.5, 7., -2.])
        W.require_all((n,), lambda j: W.not_(W.eq(W.at(v, j), x)))
        q = W.call(lambda: p.get_value_index(x))
        W.check("absent value is refused", q.raised("ValueError"))
    look.__name__ = "lookup_" + scale
    look.__doc__ = "look-ups of values and indices of a %s scale are inverse, absent values are refused" % scale
    harness(H, contracts=C, assumes=A, cases=1500)(new)
    harness(H, contracts=C, assumes=A, cases=800)(look)


def mk_set(scale, kw):
    def change(W):
        P = W.module("echidna.core.parameter")
        was = scale
        low, high, prior = limits(W, scale)
        n = points(W, scale, low, high, prior)
        p = P.ResolutionParameter("energy_resolution", prior, None, low, high, n, "energy", **flags(scale))
        if W.choose("asked before", [True, False]):
            p.get_values()
        now = scale
        if kw == "limits":
            low, high, _ = limits(W, "linear" if scale == "linear" else scale, "2")
            if scale == "deviation":
                W.require(W.and_(W.le(low, prior), W.le(prior, high)))
                W.require(W.or_(W.le(3, n), W.and_(W.le(2, n), W.or_(W.eq(prior, low), W.eq(prior, high)))))
            new = {"low": low, "high": high}
        elif kw == "low":
            low2 = W.real("low2", gt=0 if scale == "log" else None, pool=[.25, .5, 1.] if scale == "log" else LOW)
            W.require(W.lt(low2, high))
            if scale == "deviation":
                W.require(W.le(low2, prior))
                W.require(W.or_(W.le(3, n), W.and_(W.le(2, n), W.or_(W.eq(prior, low2), W.eq(prior, high)))))
            low, new = low2, {"low": low2}
        elif kw == "bins":
            n = points(W, scale, low, high, prior, "2")
            new = {"bins": n}
        elif kw == "scale":
            now = W.choose("new scale", [s for s in SCALES if s != scale])
            if now == "log":
                W.require(W.lt(0, low))
            if now == "deviation":
                W.require(W.and_(W.le(low, prior), W.le(prior, high), W.le(3, n)))
            new = {"logscale": now == "log", "logscale_deviation": now == "deviation"}
        else:
            new = {}
            W.check("unknown settings are refused", W.call(lambda: p.set_par(size=3)).raised("TypeError"))
        q = W.call(lambda: p.set_par(**new))
        W.check("settings can be changed", q.ok)
        if q.ok:
            correct(W, p, now, low, high, prior, n)
    change.__name__ = "change_%s_%s" % (scale, kw)
    change.__doc__ = "after changing %s of a %s scale the values are those of the new settings" % (kw, scale)
    harness(H, contracts=C, assumes=A, cases=600)(change)


for s in SCALES:
    mk(s)
for s in SCALES:
    for k in ("limits", "low", "bins", "scale", "unknown"):
        mk_set(s, k)


@harness(H, contracts=C, assumes=A, cases=300)
def change_sigma(W):
    """the other settings (prior, sigma, also None) can be changed and are returned"""
    P = W.module("echidna.core.parameter")
    s = [None, W.real("sigma", gt=0)][W.choose("sigma", [0, 1])]
    p = P.RateParameter("rate", W.real("prior"), s, 0., 2., 3)
    pr = W.real("prior2")
    s2 = [None, W.real("sigma2", gt=0)][W.choose("sigma2", [0, 1])]
    q = W.call(lambda: p.set_par(prior=pr, sigma=s2))
    W.check("settings can be changed", q.ok)
    if q.ok:
        W.check("prior", W.eq(p.get_prior(), pr))
        t = p.get_sigma()
        W.check("sigma", (t is None) == (s2 is None) and (t is None or W.eq(t, s2)))
