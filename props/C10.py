"""C10: shrinking"""
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C10"
C = ["Spectra.shrink", "SpectraParameter.round", "SpectraParameter.set_par", "Parameter.get_width"]
A = ["the number of axes is enumerated 1..3 (bins, bounds and content are unbounded)",
     "requested bounds are on a bin edge or at least 1% of a width away from the nearest edge (shrink's documented tolerance)"]
FR = [0., .5, .25, .75, 0.984375, 0.015625]


def request(W, a, j, rank=1, full=True, others=None):
    """a request for axis a: (kwargs, first kept bin, one after the last kept bin); full: bounds on and off the bin edges"""
    if not full:                # (proof only) one of the other axes may get a new upper bound inside a bin
        if others != "high %d" % j:
            return {}, 0, a.bins
        fl = W.real("flo%d" % j, lo="0.01", hi="0.99")
        hb = W.int("hi%d" % j, lo=0)
        W.require(W.lt(hb + fl, a.bins))
        return {a.name + "_high": a.low + (hb + fl) * a.width}, 0, hb + 1
    which = W.choose("bounds %d" % j, ["both", "low", "high", "none"] if not W.sym or rank < 3 else ["both"])
    kw, lo, hi = {}, 0, a.bins
    fl = fh = 0
    if which in ("both", "low"):
        lo = W.int("lo%d" % j, lo=0, hi=None if W.sym else a.bins - 1)
        W.require(W.lt(lo, a.bins))
        fl = W.real("flo%d" % j, lo=0, hi="0.99", pool=FR)
        W.require(W.or_(W.eq(fl, 0), W.le(W.num("0.01"), fl)))
        kw[a.name + "_low"] = a.low + (lo + fl) * a.width
    if which in ("both", "high"):
        hb = W.int("hi%d" % j, lo=0 if W.sym else lo, hi=None if W.sym else a.bins)
        fh = W.real("fhi%d" % j, lo=0, hi="0.99", pool=FR)
        W.require(W.or_(W.eq(fh, 0), W.le(W.num("0.01"), fh)))
        W.require(W.le(hb + fh, a.bins))
        W.require(W.le(lo + fl, hb + fh))
        kw[a.name + "_high"] = a.low + (hb + fh) * a.width
        hi = hb if W.eq(fh, 0) else hb + 1
    W.require(W.lt(lo, hi))
    return kw, lo, hi


def kept(W, sp, ax, d, s, rng, nd=True):
    W.check("same axes", list(sp._config.get_pars()) == [a.name for a in ax])
    for a, (lo, hi) in zip(ax, rng):
        p = sp._config.get_par(a.name)
        W.check("low bound", W.eq(p._low, a.low + lo * a.width))
        W.check("high bound", W.eq(p._high, a.low + hi * a.width))
        W.check("number of bins", W.eq(p._bins, hi - lo))
        W.check("same width", W.eq(p.get_width(), a.width))
    shp = tuple(hi - lo for lo, hi in rng)
    ok = len(W.shape(sp._data)) == len(ax)
    W.check("data shape matches", ok and W.eq(tuple(W.shape(sp._data)), shp))
    if ok:
        W.check_all("kept bins unchanged", shp, lambda *i: W.eq(
            W.at(sp._data, *i), W.at(d, *[x + lo for x, (lo, hi) in zip(i, rng)])))
    W.check("scaling information unchanged", S.same_scaling(W, sp, s))


def keep(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        kw, rng = {}, []
        main = W.choose("axis with any bounds", list(range(rank)))
        others = W.choose("other axes", ["none", "high %d" % ((main + 1) % rank)]) if rank > 1 else None
        for j, a in enumerate(ax):
            k, lo, hi = request(W, a, j, rank, full=(j == main or not W.sym), others=others)
            kw.update(k)
            rng.append((lo, hi))
        if (rank == 1 or not W.sym) and W.choose("order", ["low first", "high first"]) == "high first":
            kw = dict(reversed(list(kw.items())))
        r = W.call(lambda: sp.shrink(**kw))
        W.check("accepted", r.ok)
        if r.ok:
            kept(W, sp, ax, d, s, rng)
    h.__name__ = "shrink_rank%d" % rank
    h.__doc__ = "exactly the bins between the bounds are kept, with their content, for every axis at once; bookkeeping describes them"
    return h


def anywhere(W):
    """for any accepted request (also within the tolerance): width kept, shape and bookkeeping agree, kept bins contiguous"""
    sp, ax, d = S.make(W, 1)
    a, s = ax[0], S.Snap(W, sp)
    x = W.real("from", lo=0, pool=[0., .5, .25, 1., 1.5, 2., .99609375, 1.00390625, 2.75, 3.])
    y = W.real("to", pool=[1., .5, .25, 3., 1.5, 2., 1.99609375, 1.00390625, 2.75, 4., 5.])
    W.require(W.and_(W.le(x + W.num("0.5"), y), W.le(y, a.bins)))
    r = W.call(lambda: sp.shrink(**{a.name + "_low": a.low + x * a.width, a.name + "_high": a.low + y * a.width}))
    W.check("accepted", r.ok)
    if r.ok:
        p = sp._config.get_par(a.name)
        W.check("same width", W.eq(p._high - p._low, a.width * p._bins))
        W.check("data shape matches", W.eq(tuple(W.shape(sp._data)), (p._bins,)))
        k = W.floor(x)
        if W.lt(W.num("0.99"), x - k):
            k = k + 1
        W.check("first kept bin", W.eq(p._low, a.low + k * a.width))
        W.check("the requested range is covered up to the tolerance", W.le(y * a.width + a.low, p._high + W.num("0.01") * a.width))
        W.check("no bin above the request", W.lt(p._high, a.low + (y + 1) * a.width))
        W.check_all("kept bins unchanged", p._bins, lambda i: W.eq(W.at(sp._data, i), W.at(d, i + k)))


def refused(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        j = W.choose("axis", list(range(rank)))
        a = ax[j]
        kw = {}
        if rank > 1 and W.choose("also a good axis", [False, True]):
            b = ax[j - 1]
            kw[b.name + "_low"] = b.low
            kw[b.name + "_high"] = b.high - W.num("0.5") * b.width
        what = W.choose("fault", ["low below", "high above", "low above the range", "high below the range", "unknown axis", "suffix", "no suffix"])
        t = W.real("outside", gt=0, pool=[.5, 1., 2.25, 3., 8., 0.0625])
        tol = lambda x: W.num("1e-6") + W.num("1e-4") * W.abs(x)
        if what in ("low below", "high below the range"):
            W.require(W.lt(tol(a.low), t * a.width))
            kw[a.name + ("_low" if what == "low below" else "_high")] = a.low - t * a.width
        elif what in ("high above", "low above the range"):
            W.require(W.lt(tol(a.high), t * a.width))
            kw[a.name + ("_high" if what == "high above" else "_low")] = a.high + t * a.width
        elif what == "unknown axis":
            kw[W.choose("unknown", ["nosuch_mc_low", "energy_low", "low", "high"])] = a.low
        else:
            kw[a.name + {"suffix": "_mid", "no suffix": ""}[what]] = a.low
        if W.choose("order", ["fault last", "fault first"]) == "fault first":
            kw = dict(reversed(list(kw.items())))
        r = W.call(lambda: sp.shrink(**kw))
        W.check("refused with an exception", r.raised("Exception"))
        S.check_unchanged(W, "refused", sp, s)
    h.__name__ = "shrink_refused_rank%d" % rank
    h.__doc__ = "unknown axes, malformed names and bounds outside the range: exception before anything is changed"
    return h


for r in (1, 2, 3):
    harness(H, contracts=C, assumes=A)(keep(r))
harness(H, contracts=C)(anywhere)
for r in (1, 2, 3):
    harness(H, contracts=C, assumes=A[:1])(refused(r))
