"""C19: grid-search fits"""
from collections import OrderedDict
from pyvc.runner import harness
H = []
ID = "C19"
A = ["one to three fit parameters, at most one spectral dimension in per-bin mode; numbers of grid values, the values "
     "(any strictly increasing array, as C18 gives) and the minimised function are arbitrary",
     "in the proofs the function returns the same result whenever it is called with the same values"]
C = ["GridSearch.minimise", "GridSearch._get_fit_par_values", "GridSearch._get_values", "GridSearch.find_minimum",
     "GridSearch.set_stat", "GridSearch.set_penalty_term", "GridSearch.get_stats", "FitParameter.get_values",
     "FitParameter.get_value_at", "FitParameter.get_value_index"]
NAMES = ["energy_scale", "energy_shift", "radial_shift"]
POOL = [0., 1., 2., -1., 3.5, 0., 1., -7.25]


class Count(object):
    def __init__(self):
        self.n = 0


def grid(W, p, i, n):
    """arbitrary strictly increasing values (what get_values returns, C18), or the parameter's own linear ones"""
    if not W.sym and W.choose("values %d" % i, ["any", "linear"]) == "linear":
        return p.get_values()
    v = W.array("values%d" % i, (n,), gt=None if W.sym else 0, pool=[.25, .5, 1., 2., 3.])
    if W.sym:
        W.require_all((n, n), lambda a, b: W.implies(W.lt(a, b), W.lt(W.at(v, a), W.at(v, b))))
    else:
        v = v.cumsum() - 3.
    p._values = v
    return v


def mk(nf, per_bin, use_numpy, **kw):
    def h(W):
        P, c = W.module("echidna.core.parameter"), W.module("echidna.core.config")
        ns = [W.dim("n%d" % i) for i in range(nf)]
        # (the proofs for three parameters take two of the eight combinations of parameters with and without a sigma)
        one = W.choose("sigmas", ["first", "rest"]) if W.sym and nf > 2 else None
        sig = [W.real("sigma%d" % i, gt=0) if (W.choose("sigma %d" % i, ["set", "none"]) == "set" if one is None else
                                               (i == 0) == (one == "first")) else None for i in range(nf)]
        pri = [W.real("prior%d" % i) for i in range(nf)]
        pars = [P.ScaleParameter(x, q, s, 0.5, 4., n, "energy") if i == 0 else P.ShiftParameter(x, q, s, -2., 2., n, "energy")
                for i, (x, q, s, n) in enumerate(zip(NAMES, pri, sig, ns))]
        vals = [grid(W, p, i, n) for i, (p, n) in enumerate(zip(pars, ns))]
        fit = c.GlobalFitConfig("fit", OrderedDict((x, {"par": p, "spectrum": None}) for x, p in zip(NAMES, pars)))
        nb = W.dim("bins")
        sp = c.SpectraConfig("spec", OrderedDict([("energy_mc", P.SpectraParameter("energy_mc", 0., 10., nb))]))
        ts = W.module("echidna.fit.test_statistic").BakerCousinsChi(per_bin=per_bin)
        g = W.module("echidna.fit.minimise").GridSearch(fit, sp, "search", per_bin=per_bin, use_numpy=use_numpy)
        F = W.func("funct", nf, 1 if per_bin else 0, pool=POOL)
        Q = W.func("penalty", nf, pool=POOL)
        calls = Count()
        W.root(calls)

        def funct(*v):
            calls.n = calls.n + 1
            return (W.build((nb,), lambda m: F(*(v + (m,)))) if per_bin else F(*v)), Q(*v)
        stat = (lambda v, *m: F(*(tuple(v) + m)))
        total = lambda v: W.sum((nb,), lambda m: stat(v, m)) if per_bin else stat(v)
        at = lambda i: [W.at(x, k) for x, k in zip(vals, i)]
        q = W.call(lambda: g.minimise(funct, ts))
        W.check("returns", q.ok)
        if not q.ok:
            return
        n = 1
        for x in ns:
            n = n * x
        W.check("as many evaluations as grid points", W.eq(calls.n, n))
        fs = tuple(ns)
        ss = (nb,) if per_bin else ()
        W.check("shapes of the grids", W.and_(W.eq(tuple(W.shape(g._stats)), fs + ss), W.eq(tuple(W.shape(g._penalty_terms)), fs)))
        W.check_all("statistic of every grid point", fs + ss, lambda *i: W.same(W.at(g._stats, *i), stat(at(i[:nf]), *i[nf:])))
        W.check_all("penalty of every grid point", fs, lambda *i: W.same(W.at(g._penalty_terms, *i), Q(*at(i))))
        best = [p._best_fit for p in pars]
        W.check("every parameter has a best fit", all(b is not None for b in best))
        if not all(b is not None for b in best):
            return
        for p, b, v, m in zip(pars, best, vals, ns):
            k = W.call(lambda: p.get_value_index(b))
            W.check("the best fit is a value of the grid", k.ok and W.and_(W.le(0, k.value), W.lt(k.value, m),
                                                                           W.same(W.at(v, k.value), b)))
        s, pen = q.value
        if per_bin:
            W.check("statistic at the best fit: shape", W.eq(tuple(W.shape(s)), ss))
            W.check_all("statistic at the best fit", ss, lambda m: W.same(W.at(s, m), stat(best, m)))
        else:
            W.check("statistic at the best fit", W.same(s, stat(best)))
        W.check("penalty at the best fit", W.same(pen, Q(*best)))
        W.check_all("smallest sum of statistic and penalty", fs, lambda *i: W.le(total(best) + Q(*best), total(at(i)) + Q(*at(i))))
        for p, b, sg, pr in zip(pars, best, sig, pri):
            W.check("penalty term of a parameter", W.eq(p._penalty_term, 0 if sg is None else W.div((b - pr) * (b - pr), sg * sg)))
    h.__name__ = "search_%d%s_%s" % (nf, "_per_bin" if per_bin else "", "numpy" if use_numpy else "own")
    h.__doc__ = "every grid point is evaluated once and stored, the best fit is the global minimum (%d parameters, %s, %s)" % (
        nf, "per bin" if per_bin else "total", "numpy" if use_numpy else "find_minimum")
    harness(H, contracts=C, assumes=A, cases=250, size=3, **kw)(h)


for a in (1, 2):
    for b in (False, True):
        for u in (True, False):
            mk(a, b, u)
for b in (False, True):
    for u in (True, False):
        mk(3, b, u)
