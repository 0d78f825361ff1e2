"""C29: limit results"""
from collections import OrderedDict
from pyvc.runner import harness
H = []
ID = "C29"
A = ["the number of fit parameters is enumerated 1..3; the number of scales, all contents and the changed scale are arbitrary",
     "each harness is one store from arbitrary results, so it covers every sequence of stores"]
C = ["LimitResults." + x for x in ("__init__", "get_best_fit", "get_best_fits", "get_full_stat", "get_full_stats", "get_limit_stat",
                                   "get_stats", "get_penalty_terms_at_scale", "get_penalty_terms", "get_penalty_term",
                                   "set_best_fit", "set_penalty_term", "set_limit_stat")]
NAMES = ["rate", "energy_resolution", "radial_shift"]


def fit_config(W, n, names=None):
    P, c = W.module("echidna.core.parameter"), W.module("echidna.core.config")
    pars = OrderedDict()
    for x in (names or NAMES)[:n]:
        p = P.RateParameter(x, 1., None, 0., 2., 3) if x == "rate" else \
            P.ResolutionParameter(x, 1., None, 0., 2., 3, "energy") if x == "energy_resolution" else \
            P.ShiftParameter(x, 1., None, 0., 2., 3, "radial")
        pars[x] = {"par": p, "spectrum": None}
    return c.GlobalFitConfig("fit", pars)


def results(W, n, names=None, per_bin=False):
    P, c = W.module("echidna.core.parameter"), W.module("echidna.core.config")
    ns = W.dim("scales")
    cfg = fit_config(W, n, names)
    sig = c.SpectraConfig("signal", OrderedDict([("energy_mc", P.SpectraParameter("energy_mc", 0., 10., 10))]))
    lim = c.SpectraFitConfig("limit", OrderedDict([("rate", P.RateParameter("rate", 1., None, 0., 2., ns))]), "signal")
    r = W.module("echidna.fit.fit_results").LimitResults(cfg, sig, lim, W.choose("name", ["res", None]))
    return r, cfg, ns


def arbitrary(W, r, ns, n, per_bin=0):
    b = W.array("best", (ns, n))
    p = W.array("penalty", (ns, n))
    s = W.array("stats", (ns,) + tuple(W.dim("m%d" % j) for j in range(per_bin)))
    r._best_fits, r._penalty_terms, r._stats = W.copy(b), W.copy(p), W.copy(s)
    return b, p, s


def agree(W, r, names, ns, best, pen, stat, tag=""):
    """everything the object returns is what best(i, j), pen(i, j) and stat(i) say"""
    for j, x in enumerate(names):
        q = W.call(lambda: r.get_best_fits(x))
        W.check("best fits of a parameter", q.ok and W.shape(q.value) and W.eq(tuple(W.shape(q.value)), (ns,)))
        if q.ok:
            W.check_all("best fits of a parameter", (ns,), lambda i: W.same(W.at(q.value, i), best(i, j)))
        t = W.call(lambda: r.get_penalty_terms(x))
        W.check("penalty terms of a parameter", t.ok and W.eq(tuple(W.shape(t.value)), (ns,)))
        if t.ok:
            W.check_all("penalty terms of a parameter", (ns,), lambda i: W.same(W.at(t.value, i), pen(i, j)))
        k = W.int("asked%s%d" % (tag, j), lo=0, hi=None if W.sym else ns - 1)
        W.require(W.lt(k, ns))
        u = W.call(lambda: (r.get_best_fit(k, x), r.get_penalty_term(k, x)))
        W.check("best fit and penalty of a scale and parameter", u.ok and W.and_(W.same(u.value[0], best(k, j)),
                                                                                 W.same(u.value[1], pen(k, j))))
        if j == 0:
            v = W.call(lambda: r.get_penalty_terms_at_scale(k))
            W.check("penalty terms of a scale", v.ok and W.eq(tuple(W.shape(v.value)), (len(names),)) and
                    W.and_(*[W.same(W.at(v.value, y), pen(k, y)) for y in range(len(names))]))
            if stat is not None:
                w = W.call(lambda: (r.get_stats(), r.get_limit_stat(k)))
                W.check("statistic of a scale", w.ok and W.and_(W.eq(tuple(W.shape(w.value[0])), (ns,)),
                                                                W.same(w.value[1], stat(k))))
                if w.ok:
                    W.check_all("statistics", (ns,), lambda i: W.same(W.at(w.value[0], i), stat(i)))


def mk(n):
    def new(W):
        r, cfg, ns = results(W, n)
        agree(W, r, NAMES[:n], ns, lambda i, j: 0, lambda i, j: 0, lambda i: 0)
    new.__doc__ = "new results are all zero, with the right shapes, for %d parameters" % n
    new.__name__ = "new_%d" % n

    def store(W):
        r, cfg, ns = results(W, n)
        b, p, s = arbitrary(W, r, ns, n)
        agree(W, r, NAMES[:n], ns, lambda i, j: W.at(b, i, j), lambda i, j: W.at(p, i, j), lambda i: W.at(s, i))
        k, v = W.int("scale", lo=0, hi=None if W.sym else ns - 1), W.real("value")
        W.require(W.lt(k, ns))
        what = W.choose("store", ["best", "penalty", "stat"])
        c = W.choose("parameter", list(range(n)))
        x = NAMES[c]
        q = W.call(lambda: r.set_best_fit(k, v, x) if what == "best" else
                   r.set_penalty_term(k, v, x) if what == "penalty" else r.set_limit_stat(k, v))
        W.check("stored", q.ok)

        def f(w, old):
            return lambda i, j=0: (W.ite(W.eq(i, k), v, old(i, j)) if what == w and (w == "stat" or j == c) else old(i, j))
        agree(W, r, NAMES[:n], ns, f("best", lambda i, j: W.at(b, i, j)), f("penalty", lambda i, j: W.at(p, i, j)),
              f("stat", lambda i, j: W.at(s, i)), "after")
    store.__doc__ = "a value stored for a scale and parameter is returned for exactly that one, all else is unchanged (%d parameters)" % n
    store.__name__ = "store_%d" % n

    def full(W):
        r, cfg, ns = results(W, n)
        pb = W.choose("bins of the statistic", [0, 1, 2])
        b, p, s = arbitrary(W, r, ns, n, pb)
        bins = W.shape(s)[1:]

        def want(i):
            t = W.sum(tuple(bins), lambda *m: W.at(s, i, *m)) if bins else W.at(s, i)
            for j in range(n):
                t = t + W.at(p, i, j)
            return t
        q = W.call(lambda: r.get_full_stats())
        W.check("full statistics: one per scale", q.ok and W.eq(tuple(W.shape(q.value)), (ns,)))
        if q.ok:
            W.check_all("full statistics", (ns,), lambda i: W.eq(W.at(q.value, i), want(i)))
        k = W.int("asked", lo=0, hi=None if W.sym else ns - 1)
        W.require(W.lt(k, ns))
        q = W.call(lambda: r.get_full_stat(k))
        W.check("full statistic of one scale", q.ok and W.eq(q.value, want(k)))
        W.check("nothing stored is changed: shapes", W.and_(W.eq(tuple(W.shape(r._stats)), tuple(W.shape(s))),
                                                           W.eq(tuple(W.shape(r._penalty_terms)), (ns, n))))
        W.check_all("nothing stored is changed", tuple(W.shape(s)), lambda *i: W.same(W.at(r._stats, *i), W.at(s, *i)))
        W.check_all("nothing stored is changed", (ns, n), lambda *i: W.same(W.at(r._penalty_terms, *i), W.at(p, *i)))
    full.__doc__ = "full statistic = statistic (summed over its bins) + the penalties of all parameters (%d parameters)" % n
    full.__name__ = "full_%d" % n

    def summary(W):
        F = W.module("echidna.fit.fit_results")
        r, cfg, ns = results(W, n)
        if W.choose("kind", ["limit", "fit"]) == "fit":
            r = F.FitResults(cfg, r.get_spectra_config(), "fit")
        vals = [(W.real("best%d" % j), W.real("pen%d" % j)) for j in range(n)]
        for x, (v, w) in zip(NAMES, vals):
            cfg.get_par(x).set_best_fit(v)
            cfg.get_par(x).set_penalty_term(w)
        q = W.call(lambda: r.get_summary())
        W.check("lists every parameter in order", q.ok and [str(x) for x in q.value] == NAMES[:n])
        if q.ok:
            for x, (v, w) in zip(NAMES, vals):
                e = q.value[x]
                W.check("best fit and penalty", sorted(e) == ["best_fit", "penalty_term"] and
                        W.and_(W.same(e["best_fit"], v), W.same(e["penalty_term"], w)))
    summary.__doc__ = "the summary lists each parameter's best fit and penalty (%d parameters)" % n
    summary.__name__ = "summary_%d" % n
    for f, cs in ((new, C), (store, C), (full, C), (summary, C + ["FitResults.get_summary"])):
        harness(H, contracts=cs, assumes=A, cases=250)(f)


for m in (1, 2, 3):
    mk(m)
