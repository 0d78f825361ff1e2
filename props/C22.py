"""C22: setting limits"""
from collections import OrderedDict
from pyvc.runner import harness
NAMES = ["rate", "energy_resolution", "radial_shift"]
H = []
ID = "C22"
A = ["the fit itself is abstract: an arbitrary statistic, best fits and penalties per number of signal decays (C19 to C21 and C28 "
     "cover the fit), Spectra.scale by its contract (C08), texts for the log are not built; number of scales, threshold and all values are arbitrary; 0 to 2 fit parameters; storing to file is off",
     "tested scales are increasing and either 0 or above 1e-8 (the code treats smaller ones as 0)"]
C = ["Limit.__init__", "Limit.get_limit", "Limit.get_array_limit", "Limit.sum_entries", "LimitResults.get_full_stats",
     "LimitResults.set_best_fit", "LimitResults.set_penalty_term", "Fit.set_signal", "Fit.remove_signal", "Spectra.scale",
     "FitParameter.get_values"]
POOL = [0., 1., 2., 2.75, 3., 5., -1., .5]


class Results(object):
    """what a minimiser reports after a fit"""
    def __init__(self, names, best, pen, decays):
        self.s = OrderedDict((x, {"best_fit": best(decays, j), "penalty_term": pen(decays, j)}) for j, x in enumerate(names))

    def get_summary(self):
        return self.s


def setting(W, npar, per_bin=0, zero=False, given=True):
    P, c, S = [W.module("echidna.core." + x) for x in ("parameter", "config", "spectra")]
    ns = W.dim("scales")
    grid = W.array("grid", (ns,), gt=None if zero else 1e-3, lo=0 if zero else None, pool=[1., 2., .5, 4., 8., 16.])
    if not W.sym:
        grid = W.mkarray(sorted(grid))
        if zero:
            grid[0] = 0.
    W.require_all((ns, ns), lambda i, j: W.implies(W.lt(i, j), W.and_(W.lt(W.at(grid, i), W.at(grid, j)), W.lt(W.num("1e-7"), W.at(grid, j)))))
    W.require(W.or_(W.eq(W.at(grid, 0), 0), W.lt(W.num("1e-7"), W.at(grid, 0))))
    rate = P.RateParameter("rate", 1., None, 0., 1., ns, values=grid)
    lim = c.SpectraFitConfig("limit", OrderedDict([("rate", rate)]), "signal")
    cfg = c.SpectraConfig("signal", OrderedDict([("energy_mc", P.SpectraParameter("energy_mc", 0., 10., 2))]))
    sig = S.Spectra("signal", W.real("decays", gt=0), cfg, fit_config=lim)
    glob = c.GlobalFitConfig("fit", OrderedDict())
    for x in NAMES[:npar]:
        glob.add_par(P.FitParameter(x, 1., 0.5 if x == "rate" and npar == 2 else None, 0., 2., 3,
                                  dimension="energy"), "global")
    fit = W.module("echidna.fit.fit").Fit({"energy": (0., 10.)}, None, fit_config=glob)
    shape = tuple(W.dim("m%d" % j) for j in range(per_bin))
    stat, pen, best = W.func("stat", 1, per_bin, pool=POOL), W.func("penalty", 1, 1, pool=POOL), W.func("best", 1, 1, pool=POOL)
    mini = npar > 0 or not zero

    def decays():
        return 0. if fit.get_signal() is None else fit.get_signal().get_num_decays()

    def run():
        d = decays()
        s = W.build(shape, lambda *i: stat(d, *i)) if per_bin else stat(d)
        return (s, W.num("7")) if given != zero else s
    if W.sym:       # contract of Spectra.scale (C08): the number of decays becomes the given one (the content is not used here)
        sig.scale = lambda d: setattr(sig, "_num_decays", d)
    for m, x, f in (("limit.limit", "yaml", "dump"), ("limit.limit", "json", "dumps")):     # only used to log
        W.override("echidna." + m, x, type("Text", (), {f: staticmethod(lambda *a, **k: "")}))
    fit.fit = run
    fit.get_minimiser = (lambda: Results(NAMES[:npar], best, pen, decays())) if mini else (lambda: None)
    if not mini:
        pen = lambda d, j: 0
    return fit, sig, rate, ns, shape, stat, pen


def mk(npar, given, per_bin, zero):
    def limit(W):
        fit, sig, rate, ns, shape, stat, pen = setting(W, npar, per_bin, zero, given)
        L = W.module("echidna.limit.limit").Limit(sig, fit, shrink=False)
        t = W.real("threshold", pool=[0., 1., 2.75, 3., 9.])
        kw = {}
        if given:
            m = W.array("minimum", shape, pool=POOL) if per_bin else W.real("minimum", pool=[0., 0., 1., -2.])
            kw = {"min_stat": W.copy(m) if per_bin else m}
        q = W.call(lambda: L.get_limit(t, store_limit=False, **kw))

        def base(*i):
            return (W.at(m, *i) if per_bin else m) if given else stat(W.num("0"), *i)

        def value(i):
            d = W.at(scales, i)
            x = W.sum(shape, lambda *j: stat(d, *j)) - W.sum(shape, base) if per_bin else stat(d) - base()
            return x + sum([pen(d, j) for j in range(npar)])
        scales = rate.get_values()
        n = W.len(scales)
        W.check("a scale or a limit error", q.ok or q.raised("LimitError"))
        if q.ok:
            i = W.call(lambda: rate.get_value_index(q.value))
            W.check("one of the scales", i.ok)
            if not i.ok:
                return
            i = i.value
            low = W.int("lowest", lo=0, hi=None if W.sym else n - 1)        # any scale of the first minimum
            W.require(W.lt(low, n))
            W.require_all((n,), lambda j: W.not_(W.lt(value(j), value(low))))
            W.require_all((low,), lambda j: W.not_(W.le(value(j), value(low))) if not W.sym else W.lt(value(low), value(j)))
            W.check("above the threshold", W.lt(t, value(i)))
            W.check("not below the scale of the minimum", W.le(low, i))
            W.check_all("first above the threshold", (n,), lambda j: W.implies(
                W.and_(W.le(low, j), W.lt(j, i)), W.not_(W.lt(t, value(j)))))
        else:
            low = W.int("lowest", lo=0, hi=None if W.sym else n - 1)
            W.require(W.lt(low, n))
            W.require_all((n,), lambda j: W.not_(W.lt(value(j), value(low))))
            W.require_all((low,), lambda j: W.lt(value(low), value(j)))
            W.check_all("no scale above the threshold", (n,), lambda j: W.implies(W.le(low, j), W.not_(W.lt(t, value(j)))))
    limit.__name__ = "limit_%d%s%s%s" % (npar, "_given" if given else "", "_bins%d" % per_bin if per_bin else "", "_zero" if zero else "")
    limit.__doc__ = ("limit with %d fit parameters, %s minimum, %s statistics, %s scale 0" %
                     (npar, "given" if given else "computed", "per-bin (rank %d)" % per_bin if per_bin else "single",
                      "with" if zero else "without"))
    if per_bin and zero:
        harness(H, contracts=C, assumes=A, cases=1500, sym=False,
                bound="1500 random searches; per-bin statistics together with a scale of 0 are beyond the solver's time")(limit)
    else:
        harness(H, contracts=C, assumes=A, cases=600)(limit)


for npar in (0, 1, 2):
    for given in (False, True):
        for zero in (False, True):
            mk(npar, given, 0, zero)
mk(1, False, 1, False)
mk(1, True, 2, False)
mk(0, False, 1, True)


def mk_array(per_bin):
    def array(W):
        fit, sig, rate, ns, shape, stat, pen = setting(W, 1)
        L = W.module("echidna.limit.limit").Limit(sig, fit, shrink=False)
        t = W.real("threshold", pool=[0., 1., 2.75, 3., 9.])
        shape = tuple(W.dim("m%d" % j) for j in range(per_bin))
        a = W.array("array", (ns,) + shape, pool=POOL)
        b = W.copy(a)
        q = W.call(lambda: L.get_array_limit(a, t))
        scales = rate.get_values()

        def value(i):
            return W.sum(shape, lambda *j: W.at(b, i, *j)) if per_bin else W.at(b, i)
        W.check("a scale or a limit error", q.ok or q.raised("LimitError"))
        if q.ok:
            i = W.call(lambda: rate.get_value_index(q.value))
            W.check("one of the scales", i.ok)
            if not i.ok:
                return
            i = i.value
            W.check("above the threshold", W.lt(t, value(i)))
            W.check_all("first above the threshold", (i,), lambda j: W.not_(W.lt(t, value(j))))
        else:
            W.check_all("no scale above the threshold", (ns,), lambda j: W.not_(W.lt(t, value(j))))
        k = W.dim("other length")
        W.require(W.not_(W.eq(k, ns)))
        W.check("wrong length is refused", W.call(lambda: L.get_array_limit(W.array("other", (k,)), t)).raised("CompatibilityError"))
    array.__name__ = "array_bins%d" % per_bin if per_bin else "array"
    array.__doc__ = "limit from an array" + (" of arrays of rank %d" % per_bin if per_bin else "")
    harness(H, contracts=C, assumes=A, cases=600)(array)


for r in (0, 1, 2):
    mk_array(r)
