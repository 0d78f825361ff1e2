"""C11: cuts and regions of interest"""
from pyvc.runner import harness
from props import _spectra as S
from props import C10
H = []
ID = "C11"
C = ["Spectra.cut", "Spectra.shrink_to_roi", "Spectra.shrink", "Spectra.sum", "Spectra.get_roi"]
A = ["the number of axes is enumerated 1..3", "requested bounds on a bin edge or at least 1% of a width away from it",
     "the spectrum's total content is not zero"]


def part(W, d, rng):
    return W.sum(tuple(hi - lo for lo, hi in rng), lambda *i: W.at(d, *[x + lo for x, (lo, hi) in zip(i, rng)]))


def setup(W, rank, both=False):
    sp, ax, d = S.make(W, rank)
    s = S.Snap(W, sp)
    full = W.sum(s.shape, lambda *i: W.at(d, *i))
    W.require(W.not_(W.eq(full, 0)) if W.sym else abs(full) > 1e-3)
    j = W.choose("axis", list(range(rank)))
    a = ax[j]
    if both or W.choose("off the edges", [False, True]):
        lo = W.int("lo", lo=0, hi=None if W.sym else a.bins - 1)
        hb = W.int("hi", lo=0, hi=None if W.sym else a.bins - 1)
        f = W.real("frac", lo="0.01", hi="0.99", pool=C10.FR)
        W.require(W.and_(W.le(lo, hb), W.lt(hb, a.bins)))
        return sp, ax, d, s, full, j, {"_low": a.low + (lo + f) * a.width, "_high": a.low + (hb + f) * a.width}, lo, hb + 1
    lo = W.int("lo", lo=0, hi=None if W.sym else a.bins - 1)
    hi = W.int("hi", lo=1, hi=None if W.sym else a.bins)
    W.require(W.and_(W.lt(lo, hi), W.le(hi, a.bins)))
    return sp, ax, d, s, full, j, {"_low": a.low + lo * a.width, "_high": a.low + hi * a.width}, lo, hi


def result(W, sp, ax, d, s, j, lo, hi):
    rng = [(lo, hi) if k == j else (0, a.bins) for k, a in enumerate(ax)]
    for a, (l, h) in zip(ax, rng):
        p = sp._config.get_par(a.name)
        W.check("low bound", W.eq(p._low, a.low + l * a.width))
        W.check("high bound", W.eq(p._high, a.low + h * a.width))
        W.check("number of bins", W.eq(p._bins, h - l))
    shp = tuple(h - l for l, h in rng)
    ok = len(W.shape(sp._data)) == len(ax)
    W.check("data shape matches", ok and W.eq(tuple(W.shape(sp._data)), shp))
    if ok:
        W.check_all("same bins as shrinking", shp, lambda *i: W.eq(
            W.at(sp._data, *i), W.at(d, *[x + l for x, (l, h) in zip(i, rng)])))
    return rng


def cut(rank):
    def h(W):
        sp, ax, d, s, full, j, kw, lo, hi = setup(W, rank)
        kw = dict((ax[j].name + k, v) for k, v in kw.items())
        r = W.call(lambda: sp.cut(**kw))
        W.check("accepted", r.ok)
        if r.ok:
            rng = result(W, sp, ax, d, s, j, lo, hi)
            new = part(W, d, rng)
            W.check("decays reduced by the same fraction as the content", W.eq(sp._num_decays * full, s.nd * new))
            W.check("other scaling information unchanged", S.same_scaling(W, sp, s, but=("num_decays",)))
    h.__name__ = "cut_rank%d" % rank
    h.__doc__ = "cut keeps the bins shrink keeps and reduces num_decays by the fraction of content kept"
    return h


def roi(rank):
    def h(W):
        sp, ax, d, s, full, j, kw, lo, hi = setup(W, rank)
        a = ax[j]
        r = W.call(lambda: sp.shrink_to_roi(kw["_low"], kw["_high"], a.name))
        W.check("accepted", r.ok)
        if r.ok:
            rng = result(W, sp, ax, d, s, j, lo, hi)
            W.check("scaling information unchanged", S.same_scaling(W, sp, s, but=("rois",)))
            W.check("one region of interest", sorted(sp._rois) == [a.name])
            q = W.call(lambda: sp.get_roi(a.name))
            W.check("region available", q.ok and sorted(q.value) == ["efficiency", "high", "low"])
            if q.ok and sorted(q.value) == ["efficiency", "high", "low"]:
                W.check("recorded low bound", W.eq(q.value["low"], a.low + lo * a.width))
                W.check("recorded high bound", W.eq(q.value["high"], a.low + hi * a.width))
                W.check("recorded efficiency", W.eq(q.value["efficiency"] * full, part(W, d, rng)))
    h.__name__ = "roi_rank%d" % rank
    h.__doc__ = "shrink_to_roi keeps num_decays and records the resulting bounds and the remaining fraction"
    return h


@harness(H, contracts=C, assumes=["two axes", "upper bounds inside bins, lower bounds unchanged"])
def roi_other_axis(W):
    """a second region on another axis keeps the record of the first and has its own efficiency"""
    sp, ax, d = S.make(W, 2, lo=0)
    s = S.Snap(W, sp)
    j = W.choose("first axis", [0, 1])
    a, b = ax[j], ax[1 - j]
    top = []
    for k, x in ((1, a), (2, b)):
        t = W.int("top%d" % k, lo=0, hi=None if W.sym else x.bins - 1)
        W.require(W.lt(t, x.bins))
        top.append(t + 1)
    rng = [(0, top[0]) if x is a else (0, b.bins) for x in ax]
    rng2 = [(0, top[0]) if x is a else (0, top[1]) for x in ax]
    full, before, after = W.sum(s.shape, lambda *i: W.at(d, *i)), part(W, d, rng), part(W, d, rng2)
    W.require(W.and_(W.lt(0, full), W.lt(0, before)))
    half = W.num("0.5")
    r = W.call(lambda: sp.shrink_to_roi(a.low, a.low + (top[0] - half) * a.width, a.name))
    W.check("accepted", r.ok)
    if r.ok:
        first = dict(sp._rois[a.name])
        q = W.call(lambda: sp.shrink_to_roi(b.low, b.low + (top[1] - half) * b.width, b.name))
        W.check("second accepted", q.ok)
        if q.ok:
            W.check("both recorded", sorted(sp._rois) == sorted([a.name, b.name]))
            W.check("first record unchanged", W.and_(*[W.same(sp._rois[a.name][k], first[k]) for k in first]))
            W.check("second efficiency", W.eq(sp._rois[b.name]["efficiency"] * before, after))
            W.check("second bounds", W.and_(W.eq(sp._rois[b.name]["low"], b.low),
                                            W.eq(sp._rois[b.name]["high"], b.low + top[1] * b.width)))
            W.check("decays kept", W.eq(sp._num_decays, s.nd))


for r in (1, 2, 3):
    for f in (cut, roi):
        harness(H, contracts=C, assumes=A)(f(r))
