"""C06: filling a spectrum"""
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C06"
C = ["Spectra.fill"]
T = [0., .5, .25, 1., 1.5, 2., 2.75, 3., 3.984375, 4., 4.5, 5., 6.25]


def inside(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        b = [W.int("bin%d" % j, lo=0, hi=None if W.sym else a.bins - 1) for j, a in enumerate(ax)]
        f = [W.real("frac%d" % j, lo=0, lt=1, pool=[0., .5, .25, .75, .984375]) for j in range(rank)]
        W.require(W.and_(*[W.lt(x, a.bins) for x, a in zip(b, ax)]))
        w = W.choose("weight", ["default", "real"])
        kw = dict((a.name, a.low + (x + y) * a.width) for a, x, y in zip(ax, b, f))
        if w == "real":
            kw["weight"] = w = W.real("weight")
        else:
            w = 1
        r = W.call(lambda: sp.fill(**kw))
        W.check("accepted", r.ok)
        if r.ok:
            W.check("binning unchanged", S.same_binning(W, sp, s))
            W.check("scaling unchanged", S.same_scaling(W, sp, s))
            W.check("shape", W.eq(tuple(W.shape(sp._data)), tuple(s.shape)))
            W.check_all("exactly the enclosing bin gains the weight", s.shape, lambda *i: W.eq(
                W.at(sp._data, *i), W.at(d, *i) + W.ite(W.and_(*[W.eq(x, y) for x, y in zip(i, b)]), w, 0)))
    h.__name__ = "fill_inside_rank%d" % rank
    h.__doc__ = "the bin [low+b*width, low+(b+1)*width) containing the point on every axis gains the weight, nothing else changes"
    return h


def outside(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        t = [W.real("pos%d" % j, pool=T + [-x for x in T]) for j in range(rank)]
        W.require(W.or_(*[W.or_(W.lt(x, 0), W.le(a.bins, x) if W.sym else x >= a.bins) for x, a in zip(t, ax)]))
        kw = dict((a.name, a.low + x * a.width) for a, x in zip(ax, t))
        r = W.call(lambda: sp.fill(**kw))
        W.check("refused with ValueError", r.raised("ValueError"))
        S.check_unchanged(W, "refused", sp, s)
    h.__name__ = "fill_outside_rank%d" % rank
    h.__doc__ = "a value below or at/above the range on some axis: ValueError, spectrum unchanged"
    return h


def keys(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        kw = dict((a.name, a.low + W.num("0.5") * a.width) for a in ax)
        bad = W.choose("fault", ["missing", "unknown", "both"])
        j = W.choose("axis", list(range(rank)))
        if bad != "unknown":
            del kw[ax[j].name]
        if bad != "missing":
            kw[W.choose("name", ["nosuch_mc", "energy", ax[j].name + "_low"])] = ax[0].low
        r = W.call(lambda: sp.fill(**kw))
        W.check("refused with an exception", r.raised("Exception"))
        S.check_unchanged(W, "refused", sp, s)
    h.__name__ = "fill_keys_rank%d" % rank
    h.__doc__ = "unknown or missing axis: exception, spectrum unchanged"
    return h


for r in (1, 2, 3):
    for f in (inside, outside, keys):
        harness(H, contracts=C, assumes=["the number of axes is enumerated 1..3 (bins, bounds, content unbounded)"])(f(r))
