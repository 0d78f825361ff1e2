"""C15: scaling and shifting with interpolation"""
import numpy
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C15"
FACTORS = [.5, 2., .9, 1.1, 1.25, .75, 1., 3., .3, 1.03, .999, 1.0001, 7.]
SHIFTS = [.25, -.25, .1, -.7, .03, 1.3, -2.6, .5, 5.5, -.5, 1e-2, 4.875]


def remains(x, y, f, low, high, src):
    """some bin takes its content from well inside the axis, where there is content and the interpolation is positive"""
    step = (high - low) / len(y)
    for b in range(len(y)):
        p = src(low + (b + .5) * step)
        if p < low + .5 * step or p > high - 1.5 * step:
            continue
        i = int((p - low) / step)
        if f(p) > 0 and all(y[k] > 0 for k in (i - 1, i, i + 1) if 0 <= k < len(y)):
            g = [f(q) for q in (p - .5 * step, p, p + .5 * step, low + i * step, low + (i + 1) * step)]
            if all(v > 0 for v in g):
                return True
    return False


def run(kind, rank, ghost):
    def h(W):
        j = W.choose("axis", list(range(rank)))
        ax = [S.axis(W, i) for i in range(rank)]
        k = W.choose("degree", [1, 2, 3])
        W.require(ax[j].bins > k)
        mode = W.choose("content", ["all", "peak", "edges", "sparse"])
        sp, _, d = S.make(W, rank, axes=ax, lo=0)
        d = numpy.array(d, dtype=float)
        if mode == "peak":
            c = W.int("at", lo=0) % ax[j].bins
            keep = numpy.zeros(d.shape, bool)
            keep[tuple(slice(None) if i != j else slice(max(0, c - 1), c + 2) for i in range(rank))] = True
            d[~keep] = 0
        elif mode == "edges":
            d[tuple(slice(None) if i != j else slice(1, -1) for i in range(rank))] = 0
        elif mode == "sparse":
            d[(numpy.indices(d.shape).sum(axis=0) % 3) == 1] = 0
        W.require(d.sum() > 0)
        sp._data = d.copy()
        s = S.Snap(W, sp)
        a = ax[j]
        if kind == "scale":
            sh = W.module("echidna.core.scale").Scale()
            v = W.real("factor", gt=0, pool=FACTORS)
            sh.set_scale_factor(v)
            src = lambda x: x / v
        else:
            sh = W.module("echidna.core.shift").Shift()
            v = W.real("shift", pool=SHIFTS) * W.choose("of a bin", [1., a.width])
            fr = (v / a.width) % 1.
            W.require(.001 < fr < .999)
            sh.set_shift(v)
            src = lambda x: x - v
        kw = {} if k == 3 and W.choose("pass k", [0, 1]) == 0 else {"k": k}
        y = d.sum(axis=tuple(i for i in range(rank) if i != j))
        x = a.low + (numpy.arange(a.bins) + .5) * a.width
        if ghost:
            c = [W.real("c%d" % i, pool=[1., -1., .5, 3., 0., 10.]) for i in range(4)]
            f = lambda p: c[int(numpy.floor((p - a.low) * 3 / a.width)) % 4] + c[0] * (p - a.low) / a.width
            sp.interpolate1d = lambda dimension, **kk: f
        else:
            from scipy import interpolate
            f = interpolate.InterpolatedUnivariateSpline(x, y, k=k)
        q = W.call(lambda: getattr(sh, kind)(sp, a.name, **kw))
        if ghost:
            del sp.interpolate1d
        W.check("accepted", q.ok)
        if not q.ok:
            return
        t = q.value
        S.check_unchanged(W, "original", sp, s)
        W.check("a new spectrum", t is not sp and t._data is not sp._data)
        W.check("number of decays", W.same(t._num_decays, s.nd))
        W.check("binning", S.same_binning(W, t, s))
        W.check("shape", t._data.shape == d.shape)
        if t._data.shape != d.shape:
            return
        r = t._data
        some = bool(numpy.nansum(abs(r)) > 0)
        if not some and not remains(x, y, f, a.low, a.high, src):
            return
        W.check("defined", bool(numpy.isfinite(r).all()))
        W.check("total content", bool(abs(r.sum() - d.sum()) <= 1e-9 * d.sum()))
        W.check("no negative bin", bool((r >= 0).all()))
    h.__name__ = "%s_rank%d%s" % (kind, rank, "_any_function" if ghost else "")
    h.__doc__ = "%s: total content, decays, binning kept; nothing negative; original unchanged" % kind
    harness(H, contracts=["Scale.scale" if kind == "scale" else "Shift.shift", "Spectra.interpolate1d", "Spectra.scale"], sym=False, cases=600, size=8,
            assumes=["the spline of scipy is the real one" if not ghost else "the interpolation is replaced by arbitrary functions"],
            bound="600 random spectra of %d axes of up to 8 bins, spline degrees 1 to 3 - the branches of the loop body multiply to more paths "
                  "than the engine explores" % rank)(h)


for kd in ("scale", "shift"):
    for n in (1, 2, 3):
        for g in (False, True):
            run(kd, n, g)


@harness(H, contracts=["Scale.set_scale_factor"])
def refuse(W):
    """a factor of zero or below is refused and the factor kept"""
    sh = W.module("echidna.core.scale").Scale()
    v = W.real("factor", gt=0, pool=FACTORS)
    w = W.real("bad", pool=[0., -1., -.001, 1., -1e-9])
    W.check("accepted", W.call(lambda: sh.set_scale_factor(v)).ok)
    W.check("stored", W.same(sh.get_scale_factor(), v))
    q = W.call(lambda: sh.set_scale_factor(w))
    if W.le(w, 0):
        W.check("ValueError", q.raised("ValueError"))
        W.check("kept", W.same(sh.get_scale_factor(), v))
    else:
        W.check("accepted again", q.ok)
