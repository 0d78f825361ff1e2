"""C14: shifting by whole bins"""
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C14"
C = ["Shift.shift", "Shift.shift_by_bin", "Shift.set_shift", "SpectraParameter.get_bin"]
A = ["the number of axes is enumerated 1..3"]


def moved(W, sp, ax, d, s, j, k, r):
    W.check("accepted", r.ok)
    if r.ok:
        t = r.value
        W.check("a new spectrum", t is not sp)
        W.check("number of decays", W.eq(t._num_decays, s.nd))
        ok = W.isarray(t._data) and len(W.shape(t._data)) == len(ax)
        W.check("shape", ok and W.eq(tuple(W.shape(t._data)), tuple(s.shape)))
        W.check("binning", S.same_binning(W, t, s) if t._config is s.cfg else
                W.and_(*[W.and_(W.eq(p._low, a.low), W.eq(p._high, a.high), W.eq(p._bins, a.bins))
                         for p, a in [(t._config.get_par(a.name), a) for a in ax]]))
        if ok:
            def want(*i):
                src = i[j] - k
                inside = W.and_(W.le(0, src), W.lt(src, ax[j].bins))
                if not W.sym:
                    return W.at(d, *(i[:j] + (src,) + i[j + 1:])) if inside else 0.
                return W.ite(inside, W.at(d, *(i[:j] + (src,) + i[j + 1:])), 0)
            W.check_all("content moved", s.shape, lambda *i: W.eq(W.at(t._data, *i), want(*i)))
    S.check_unchanged(W, "original", sp, s)


def whole(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        j = W.choose("axis", list(range(rank)))
        k = W.int("places", lo=None if W.sym else -5, hi=None if W.sym else 6)
        sh = W.module("echidna.core.shift").Shift()
        how = W.choose("through", ["shift", "shift_by_bin"])
        x = k * ax[j].width
        q = W.call(lambda: sh.set_shift(x))
        W.check("shift set", q.ok and W.eq(sh.get_shift(), x))
        r = W.call(lambda: getattr(sh, how)(sp, ax[j].name))
        moved(W, sp, ax, d, s, j, k, r)
    h.__name__ = "whole_bins_rank%d" % rank
    h.__doc__ = "bin i of the shifted spectrum is bin i-k of the original along the axis (zero outside); original unchanged"
    return h


@harness(H, contracts=C, sym=False, bound="1500 random spectra of 1..3 axes, widths that are not floating point numbers",
         assumes=["run-time check only"])
def whole_bins_decimal(W):
    """whole-bin shifts with decimal widths such as 0.1 (floating point behaviour, run-time only)"""
    if W.sym:
        return
    rank = W.choose("rank", [1, 2, 3])
    ax = [S.Axis(S.NAMES[j], W.choose("low%d" % j, [0., 1., .3]), W.choose("width%d" % j, [.1, .2, .3, .7, .05, 1.1]),
                 W.dim("bins%d" % j)) for j in range(rank)]
    sp, ax, d = S.make(W, rank, axes=ax)
    s = S.Snap(W, sp)
    j = W.choose("axis", list(range(rank)))
    k = W.int("places", lo=-5, hi=6)
    sh = W.module("echidna.core.shift").Shift()
    sh.set_shift(k * ax[j].width)
    r = W.call(lambda: getattr(sh, W.choose("through", ["shift", "shift_by_bin"]))(sp, ax[j].name))
    moved(W, sp, ax, d, s, j, k, r)


@harness(H, contracts=C, assumes=A)
def not_whole(W):
    """a shift that is not a multiple of the width: ValueError from the bin-wise shift, original unchanged"""
    rank = W.choose("rank", [1, 2])
    sp, ax, d = S.make(W, rank)
    s = S.Snap(W, sp)
    j = W.choose("axis", list(range(rank)))
    k = W.int("places")
    f = W.real("fraction", gt=0, lt=1, pool=[.5, .25, .75, .984375, .015625])
    w = ax[j].width
    W.require(W.and_(W.lt(W.num("1e-6"), f * w), W.lt(W.num("1e-6"), (1 - f) * w), W.lt(f, W.num("0.999"))))
    sh = W.module("echidna.core.shift").Shift()
    sh.set_shift((k + f) * w)
    r = W.call(lambda: sh.shift_by_bin(sp, ax[j].name))
    W.check("refused with ValueError", r.raised("ValueError"))
    S.check_unchanged(W, "original", sp, s)


for r in (1, 2, 3):
    harness(H, contracts=C, assumes=A)(whole(r))
