"""C09: adding spectra"""
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C09"
C = ["Spectra.add", "SpectraConfig.get_dims", "SpectraConfig.get_dim", "SpectraConfig.get_dim_type"]
A = ["the number of axes is enumerated 1..3"]
RETYPE = {"mc": "reco", "reco": "mc", "truth": "mc"}


def other_type(name):
    dim, t = name.rsplit("_", 1)
    return dim + "_" + RETYPE[t]


def good(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        j = W.choose("axis of another type", [None] + list(range(rank)))
        bx = [S.Axis(other_type(a.name) if j == k else a.name, a.low, a.width, a.bins) for k, a in enumerate(ax)]
        sq, bx, e = S.make(W, rank, prefix="q_", axes=bx)
        if W.choose("same configuration object", [False, True]) and j is None:
            sq._config = sp._config
        s, q = S.Snap(W, sp), S.Snap(W, sq)
        r = W.call(lambda: sp.add(sq))
        W.check("accepted", r.ok)
        if r.ok:
            W.check("shape", W.eq(tuple(W.shape(sp._data)), tuple(s.shape)))
            W.check_all("bin-wise sum", s.shape, lambda *i: W.eq(W.at(sp._data, *i), W.at(d, *i) + W.at(e, *i)))
            W.check("raw events added", W.eq(sp._raw_events, s.raw + q.raw))
            W.check("decays added", W.eq(sp._num_decays, s.nd + q.nd))
            W.check("binning unchanged", S.same_binning(W, sp, s))
            W.check("other information unchanged", S.same_scaling(W, sp, s, but=("num_decays", "raw")))
        S.check_unchanged(W, "added spectrum", sq, q)
        # the two stay independent: a later change of the sum does not reach the added spectrum
        t = W.call(lambda: sp.scale(W.num("2")))
        S.check_unchanged(W, "added spectrum after scaling the sum", sq, q)
    h.__name__ = "add_compatible_rank%d" % rank
    h.__doc__ = "content, raw events and decays are added; the added spectrum is unchanged"
    return h


def binning(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        j = W.choose("axis", list(range(rank)))
        what = W.choose("differs in", ["low", "high", "bins", "anything"])
        bx = [S.Axis(a.name, a.low, a.width, a.bins) for a in ax]
        if W.choose("other type", [False, True]):
            bx[j].name = other_type(bx[j].name)
        a, b = ax[j], bx[j]
        if what == "bins":              # same bounds, other number of bins
            b.bins = W.dim("other_bins")
            b.width = W.div(a.width * a.bins, b.bins * W.num("1"))
            W.require(W.not_(W.eq(a.bins, b.bins)))
        elif what == "low":             # same high, same number of bins
            w = W.real("other_width", gt=0, pool=S.WIDTHS)
            b.low, b.width = a.high - w * a.bins, w
        elif what == "high":
            b.width = W.real("other_width", gt=0, pool=S.WIDTHS)
        else:
            b.low, b.width = W.real("other_low", pool=S.LOWS), W.real("other_width", gt=0, pool=S.WIDTHS)
            b.bins = W.dim("other_bins")
        if what != "bins":
            tol = lambda x: W.num("1e-6") + W.num("1e-4") * W.abs(x)
            W.require(W.or_(W.lt(tol(a.low), W.abs(a.low - b.low)), W.lt(tol(a.high), W.abs(a.high - b.high)),
                            W.not_(W.eq(a.bins, b.bins))))
        sq, bx, e = S.make(W, rank, prefix="q_", axes=bx)
        s, q = S.Snap(W, sp), S.Snap(W, sq)
        r = W.call(lambda: sp.add(sq))
        W.check("refused with an exception", r.raised("Exception"))
        S.check_unchanged(W, "refused", sp, s)
        S.check_unchanged(W, "refused, added spectrum", sq, q)
    h.__name__ = "add_other_binning_rank%d" % rank
    h.__doc__ = "an axis differs in low, high or number of bins: exception, both unchanged"
    return h


def dims(W):
    """dimensions differ, or are in another order: exception, both unchanged"""
    rank = W.choose("rank", [1, 2, 3])
    ax = [S.axis(W, j) for j in range(rank)]
    if W.choose("equal axes", [False, True]):
        ax = [S.Axis(a.name, ax[0].low, ax[0].width, ax[0].bins) for a in ax]
    bx = [S.Axis(a.name, a.low, a.width, a.bins) for a in ax]
    sp, ax, d = S.make(W, rank, axes=ax)
    what = W.choose("difference", ["order", "order and type", "other", "missing", "more"])
    if what.startswith("order"):
        W.require(rank > 1)
        i, j = W.choose("swap", [(0, 1), (0, 2), (1, 2)])
        W.require(j < rank)
        bx[i], bx[j] = bx[j], bx[i]
        if what != "order":
            bx[j].name = other_type(bx[j].name)
    elif what == "other":
        bx[-1].name = S.NAMES[3]
    elif what == "missing":
        W.require(rank > 1)
        del bx[W.choose("which", list(range(rank - 1)))]
    else:
        bx.append(S.axis(W, 3))
    sq, bx, e = S.make(W, len(bx), prefix="q_", axes=bx)
    s, q = S.Snap(W, sp), S.Snap(W, sq)
    r = W.call(lambda: sp.add(sq))
    W.check("refused with an exception", r.raised("Exception"))
    S.check_unchanged(W, "refused", sp, s)
    S.check_unchanged(W, "refused, added spectrum", sq, q)


def itself(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        r = W.call(lambda: sp.add(sp))
        W.check("accepted", r.ok)
        if r.ok:
            W.check("shape", W.eq(tuple(W.shape(sp._data)), tuple(s.shape)))
            W.check_all("bin-wise sum", s.shape, lambda *i: W.eq(W.at(sp._data, *i), 2 * W.at(d, *i)))
            W.check("raw events added", W.eq(sp._raw_events, 2 * s.raw))
            W.check("decays added", W.eq(sp._num_decays, 2 * s.nd))
            W.check("binning unchanged", S.same_binning(W, sp, s))
            W.check("other information unchanged", S.same_scaling(W, sp, s, but=("num_decays", "raw")))
    h.__name__ = "add_itself_rank%d" % rank
    h.__doc__ = "a spectrum added to itself: everything doubles"
    return h


for r in (1, 2, 3):
    for f in (good, binning, itself):
        harness(H, contracts=C, assumes=A)(f(r))
dims.__name__ = "add_other_dimensions"
harness(H, contracts=C, assumes=A)(dims)
