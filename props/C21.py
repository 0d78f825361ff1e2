"""C21: stored fit grids"""
from collections import OrderedDict
from pyvc.runner import harness
H = []
ID = "C21"
A = ["up to three fit parameters and two spectral dimensions (every combination up to two and two, per bin or not); numbers of "
     "values and bins, contents and indices are arbitrary", "each harness is one store from arbitrary grids, so it covers every "
     "sequence of stores"]
C = ["GridSearch." + x for x in ("__init__", "get_penalty_term", "get_raw_stat", "get_raw_stats", "get_stat", "get_stats",
                                 "set_penalty_term", "set_penalty_terms", "set_stat", "set_stats", "reset_grids")]
FIT = ["rate", "energy_resolution", "radial_shift"]
DIM = ["energy_mc", "radial_reco"]


def make(W, nf, ns, per_bin):
    P, c = W.module("echidna.core.parameter"), W.module("echidna.core.config")
    pars = OrderedDict()
    for i, x in enumerate(FIT[:nf]):
        b = W.dim("n%d" % i)
        p = P.RateParameter(x, 1., None, 0., 2., b) if x == "rate" else \
            P.ResolutionParameter(x, 1., None, 0., 2., b, "energy") if x == "energy_resolution" else \
            P.ShiftParameter(x, 1., None, 0., 2., b, "radial")
        pars[x] = {"par": p, "spectrum": None}
    fit = c.GlobalFitConfig("fit", pars)
    sp = c.SpectraConfig("spec", OrderedDict([(d, P.SpectraParameter(d, 0., 10., W.dim("b%d" % i))) for i, d in enumerate(DIM[:ns])]))
    name = W.choose("name", ["search", None])
    g = W.module("echidna.fit.minimise").GridSearch(fit, sp, name, per_bin=per_bin)
    fs = tuple(fit.get_par(x)._bins for x in FIT[:nf])
    ss = tuple(sp.get_par(d)._bins for d in DIM[:ns])
    return g, fs, ss


def agree(W, g, fs, ss, stat, pen):
    """all getters give what stat(fit indices + spectral indices) and pen(fit indices) say"""
    per_bin = len(ss) > 0
    k = tuple(W.int("ask%d" % i, lo=0, hi=None if W.sym else n - 1) for i, n in enumerate(fs))
    for x, n in zip(k, fs):
        W.require(W.lt(x, n))
    total = (lambda i: W.sum(ss, lambda *m: stat(*(tuple(i) + m)))) if per_bin else (lambda i: stat(*i))
    q = W.call(lambda: g.get_raw_stat(k))
    W.check("stored statistic: shape", q.ok and W.eq(tuple(W.shape(q.value)), ss))
    if q.ok and per_bin:
        W.check_all("stored statistic", ss, lambda *m: W.same(W.at(q.value, *m), stat(*(k + m))))
    elif q.ok:
        W.check("stored statistic", W.same(q.value, stat(*k)))
    q = W.call(lambda: g.get_penalty_term(k))
    W.check("stored penalty", q.ok and W.same(q.value, pen(*k)))
    q = W.call(lambda: g.get_stat(k))
    W.check("combined value of a point", q.ok and W.eq(q.value, total(k) + pen(*k)))
    q = W.call(lambda: g.get_stats())
    W.check("combined values: shape", q.ok and W.eq(tuple(W.shape(q.value)), fs))
    if q.ok:
        W.check_all("combined values", fs, lambda *i: W.eq(W.at(q.value, *i), total(i) + pen(*i)))
    q = W.call(lambda: g.get_raw_stats())
    W.check("statistics without penalties: shape", q.ok and W.eq(tuple(W.shape(q.value)), fs))
    if q.ok:
        W.check_all("statistics without penalties", fs, lambda *i: W.eq(W.at(q.value, *i), total(i)))
    W.check("grids keep their shapes", W.and_(W.eq(tuple(W.shape(g._stats)), fs + ss),
                                              W.eq(tuple(W.shape(g._penalty_terms)), fs)))
    W.check_all("reading changes nothing", fs + ss, lambda *i: W.same(W.at(g._stats, *i), stat(*i)))
    W.check_all("reading changes nothing", fs, lambda *i: W.same(W.at(g._penalty_terms, *i), pen(*i)))


def arbitrary(W, g, fs, ss):
    s, p = W.array("stats", fs + ss), W.array("penalties", fs)
    g._stats, g._penalty_terms = W.copy(s), W.copy(p)
    return s, p


def mk(nf, ns, per_bin):
    tag = "%d_%d%s" % (nf, ns, "_per_bin" if per_bin else "")
    desc = "(%d fit parameters, %d spectral dimensions, %s)" % (nf, ns, "per bin" if per_bin else "not per bin")

    def start(W):
        g, fs, ss = make(W, nf, ns, per_bin)
        return g, fs, (ss if per_bin else ()), ss

    def zeros(W):
        g, fs, ss, _ = start(W)
        times = W.choose("resets", [0, 1, 2])
        if times:
            arbitrary(W, g, fs, ss)
        for _ in range(times):
            q = W.call(lambda: g.reset_grids())
            W.check("reset", q.ok)
        agree(W, g, fs, ss, lambda *i: 0, lambda *i: 0)
    zeros.__doc__ = "new and reset grids are all zero, of the shapes the configuration and mode require " + desc

    def store(W):
        g, fs, ss, _ = start(W)
        s, p = arbitrary(W, g, fs, ss)
        k = tuple(W.int("at%d" % i, lo=0, hi=None if W.sym else n - 1) for i, n in enumerate(fs))
        for x, n in zip(k, fs):
            W.require(W.lt(x, n))
        here = lambda i: W.and_(True, *[W.eq(a, b) for a, b in zip(i, k)])
        stat, pen = (lambda *i: W.at(s, *i)), (lambda *i: W.at(p, *i))
        what = W.choose("store", ["nothing", "stat", "penalty"])
        if what == "stat":
            v = W.array("value", ss)
            q = W.call(lambda: g.set_stat(v, k))
            new = lambda *i: W.ite(here(i[:nf]), W.at(v, *i[nf:]), stat(*i))
            W.check("stored", q.ok)
            agree(W, g, fs, ss, new, pen)
        elif what == "penalty":
            v = W.real("value")
            q = W.call(lambda: g.set_penalty_term(v, k))
            W.check("stored", q.ok)
            agree(W, g, fs, ss, stat, lambda *i: W.ite(here(i), v, pen(*i)))
        else:
            agree(W, g, fs, ss, stat, pen)
    store.__doc__ = "values stored at a grid point are returned there, penalties are added once, everything else is unchanged " + desc

    def arrays(W):
        g, fs, ss, _ = start(W)
        s, p = arbitrary(W, g, fs, ss)
        what = W.choose("store", ["stats", "penalties"])
        if what == "stats":
            v = W.array("value", fs + ss)
            q = W.call(lambda: g.set_stats(v))
            W.check("stored", q.ok)
            agree(W, g, fs, ss, lambda *i: W.at(v, *i), lambda *i: W.at(p, *i))
        else:
            v = W.array("value", fs)
            q = W.call(lambda: g.set_penalty_terms(v))
            W.check("stored", q.ok)
            agree(W, g, fs, ss, lambda *i: W.at(s, *i), lambda *i: W.at(v, *i))
    arrays.__doc__ = "whole arrays of the right shape are stored " + desc

    def refuse(W):
        g, fs, ss, spec = start(W)
        s, p = arbitrary(W, g, fs, ss)
        what = W.choose("store", ["stats", "penalties", "stat"])
        right = fs + ss if what == "stats" else fs
        bad = W.choose("bad", ["list", "number", "longer", "extra axis", "fewer axes"] if what != "stat" else ["list", "number"])
        k = tuple(0 for _ in fs)
        if bad == "list":
            v, exc = W.list([1., 2.]), "TypeError"
        elif bad == "number":
            v, exc = W.real("value"), "TypeError"
        else:
            exc = "ValueError"
            j = W.choose("axis", list(range(len(right))))
            sh = {"longer": right[:j] + (right[j] + W.int("more", lo=1, hi=None if W.sym else 3),) + right[j + 1:],
                  "extra axis": right[:j] + (W.dim("extra"),) + right[j:],
                  "fewer axes": right[:j] + right[j + 1:]}[bad]
            if bad == "fewer axes" and not sh:
                sh = (W.dim("extra"),) + right
            v = W.array("value", sh)
        q = W.call(lambda: g.set_stats(v) if what == "stats" else g.set_penalty_terms(v) if what == "penalties" else g.set_stat(v, k))
        W.check("refused with " + exc, q.raised(exc))
        agree(W, g, fs, ss, lambda *i: W.at(s, *i), lambda *i: W.at(p, *i))
    refuse.__doc__ = "arrays of the wrong type or shape are refused and leave the stored ones unchanged " + desc
    for f in (zeros, store, arrays, refuse):
        f.__name__ = f.__name__ + "_" + tag
        harness(H, contracts=C, assumes=A, cases=120, size=3)(f)


for a, b in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)):
    for pb in (False, True):
        mk(a, b, pb)


def by_value(W):
    """looking grids up by parameter values gives what is stored at those values' indices"""
    nf, ns = W.choose("fit parameters", [1, 2]), W.choose("spectral dimensions", [1, 2])
    per_bin = W.choose("per bin", [False, True])
    g, fs, ss = make(W, nf, ns, per_bin)
    ss = ss if per_bin else ()
    s, p = arbitrary(W, g, fs, ss)
    k = tuple(W.int("at%d" % i, lo=0, hi=n - 1) for i, n in enumerate(fs))
    vals = dict((x, g._fit_config.get_par(x).get_values()[i]) for x, i in zip(FIT, k))
    total = lambda i: W.sum(ss, lambda *m: W.at(s, *(tuple(i) + m))) if ss else W.at(s, *i)
    q = W.call(lambda: g.get_penalty_at(**vals))
    W.check("penalty at values", q.ok and W.same(q.value, W.at(p, *k)))
    q = W.call(lambda: g.get_raw_stats_at(**vals))
    W.check("statistic at values", q.ok and W.eq(q.value.sum(), total(k)))
    q = W.call(lambda: g.get_raw_stats(**vals))
    W.check("statistics at values", q.ok and W.eq(q.value, total(k)))
    if nf == 2:
        q = W.call(lambda: g.get_raw_stats(**{FIT[1]: vals[FIT[1]]}))
        W.check("statistics at a value of one parameter: shape", q.ok and tuple(W.shape(q.value)) == fs[:1])
        if q.ok:
            W.check_all("statistics at a value of one parameter", fs[:1], lambda i: W.eq(W.at(q.value, i), total((i, k[1]))))


harness(H, contracts=["GridSearch." + x for x in ("get_penalty_at", "get_raw_stats_at", "get_raw_stats")], sym=False, cases=400, size=3,
        bound="grids of up to three values, up to two parameters and two dimensions")(by_value)
