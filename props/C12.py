"""C12: rebinning"""
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C12"
C = ["Spectra.rebin"]
A = ["the number of axes is enumerated 1..3", "new numbers of bins are positive integers"]


def good(rank):
    def h(W):
        ax = [S.axis(W, j) for j in range(rank)]
        m = [a.bins for a in ax]                      # new numbers of bins
        f = [W.dim("factor%d" % j) if W.sym else W.int("factor%d" % j, lo=1, hi=4) for j in range(rank)]
        for a, k in zip(ax, f):
            a.width, a.bins = W.div(a.width, k * W.num("1")), a.bins * k
        sp, ax, d = S.make(W, rank, axes=ax)
        s = S.Snap(W, sp)
        new = W.list(m) if W.choose("as", ["list", "tuple"]) == "list" else tuple(m)
        r = W.call(lambda: sp.rebin(new))
        W.check("accepted", r.ok)
        if r.ok:
            ok = len(W.shape(sp._data)) == rank
            W.check("shape", ok and W.eq(tuple(W.shape(sp._data)), tuple(m)))
            for a, b in zip(ax, m):
                p = sp._config.get_par(a.name)
                W.check("bounds unchanged", W.and_(W.eq(p._low, a.low), W.eq(p._high, a.high)))
                W.check("number of bins", W.eq(p._bins, b))
            W.check("scaling information unchanged", S.same_scaling(W, sp, s))
            if ok:
                if not W.sym:       # a consequence of the block sums (every old bin is in exactly one block)
                    W.check("total preserved", W.eq(sp.sum(), d.sum()))
                W.check_all("each new bin is the sum of the bins it covers", m, lambda *i: W.eq(
                    W.at(sp._data, *i), W.sum(tuple(f), lambda *k: W.at(d, *[x * y + z for x, y, z in zip(i, f, k)]))))
    h.__name__ = "rebin_rank%d" % rank
    h.__doc__ = "each new bin is the sum of the factor old bins it covers on every axis; bounds kept, bins updated"
    return h


def refused(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        what = W.choose("fault", ["too few", "too many", "not divisible"])
        m = [1 if W.choose("new bins %d" % j, ["one", "as before"]) == "one" else a.bins for j, a in enumerate(ax)]
        if what == "too few":
            m = m[:-1]
        elif what == "too many":
            m = m + [1]
        else:
            j = W.choose("axis", list(range(rank)))
            n = W.dim("bad")
            W.require(W.not_(W.eq(ax[j].bins % n, 0)))
            m[j] = n
        r = W.call(lambda: sp.rebin(W.list(m)))
        W.check("refused with ValueError", r.raised("ValueError"))
        S.check_unchanged(W, "refused", sp, s)
    h.__name__ = "rebin_refused_rank%d" % rank
    h.__doc__ = "wrong number of axes or a count that is not divisible: ValueError, data and binning unchanged"
    return h


for r in (1, 2, 3):
    for fn in (good, refused):
        harness(H, contracts=C, assumes=A)(fn(r))
