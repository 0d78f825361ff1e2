"""C16: weighted smearing"""
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C16"
A = ["energy axes start at or above 0 (the width of the smearing is a square root of the energy)",
     "in the proofs Spectra.fill is taken by its contract (C06): it adds the weight to the bin the values lie in, or raises ValueError"]
KINDS = {"ly": ("EnergySmearLY", "energy_mc"), "res": ("EnergySmearRes", "energy_mc"), "pos": ("RadialSmear", "radial_mc")}


def smearer(W, kind, poisson):
    m = W.module("echidna.core.smear")
    s = getattr(m, KINDS[kind][0])(**({} if kind == "pos" else {"poisson": poisson}))
    s.set_resolution(W.real("resolution", gt=0, pool={"ly": [200., 5., 80., 1.], "res": [.05, .5, .3, .01], "pos": [.5, 1., .1, 3.]}[kind],
                            lt=1 if kind == "res" else None))
    if W.sym or W.choose("sigmas", ["default", "set"]) == "set":
        s.set_num_sigma(W.real("num_sigma", gt=0, pool=[5., 1., .25, 3.]))
    return s


def axes_of(W, rank, j, name):
    ax = [S.axis(W, i, name=name if i == j else ("zed_pos_truth", "cos_angle_mc")[i - (i > j)]) for i in range(rank)]
    W.require(W.le(0, ax[j].low))
    return ax


class Tally(object):
    """what Spectra.fill adds, by row"""
    def __init__(self, W, axes, j):
        self.W, self.axes, self.j = W, axes, j
        self.n = W.num("0")
        self.rows = W.zeros(tuple(a.bins for i, a in enumerate(axes) if i != j)) if len(axes) > 1 else None

    def fill(self, weight=1., **kw):
        W = self.W
        if sorted(kw) != sorted(a.name for a in self.axes):
            raise Exception("parameters of the configuration")
        for a in self.axes:
            if not W.and_(W.le(a.low, kw[a.name]), W.lt(kw[a.name], a.high)):
                raise ValueError("out of range")
        if self.rows is None:
            self.n = self.n + weight
        else:
            ix = tuple(W.floor(W.div(kw[a.name] - a.low, a.width)) for i, a in enumerate(self.axes) if i != self.j)
            self.rows[ix] += weight


def proof(kind, rank, j, poisson):
    cls, name = KINDS[kind]

    def h(W):
        axes = axes_of(W, rank, j, name)
        sp, _, d = S.make(W, rank, axes=axes, lo=0)
        s = S.Snap(W, sp)
        sm = smearer(W, kind, poisson)
        g = W.func("weight", 2)
        if poisson:
            sm.calc_poisson_energy = lambda x, m: W.exp(g(x, m))
        t = Tally(W, axes, j)
        W.root(t)
        sp.fill = t.fill
        q = W.call(lambda: sm.weighted_smear(sp, par=name))
        W.check("accepted", q.ok)
        if not q.ok:
            return
        if rank == 1:
            W.check("content conserved", W.eq(t.n, W.sum((axes[0].bins,), lambda i: W.at(d, i))))
        else:
            o = axes[1 - j]
            W.check_all("every row conserved", o.bins, lambda m: W.eq(W.at(t.rows, m), W.sum(
                axes[j].bins, lambda i: W.at(d, i, m) if j == 0 else W.at(d, m, i))))
        S.check_unchanged(W, "original", sp, s)
    h.__name__ = "rows_%s_rank%d_axis%d%s" % (kind, rank, j, "_poisson" if poisson else "")
    h.__doc__ = "%s.weighted_smear: every row's content is conserved" % cls
    harness(H, contracts=[cls + ".weighted_smear", "Smear.get_bounds", "Smear.get_bin_mean", cls + ".get_sigma", "SpectraParameter.round",
                          "Smear.calc_gaussian"], assumes=A, cases=0, vc_ms=60000, max_s=420, soft=kind != "pos")(h)


for k in KINDS:
    for p in ((False, True) if k != "pos" else (False,)):
        proof(k, 1, 0, p)


def weight_at(W, kind, sm, poisson, x, mean):
    """the smearing function at a bin centre, up to a factor that does not depend on the centre"""
    import math
    if kind == "pos":
        sig = sm.get_resolution()
    elif kind == "ly":
        sig = math.sqrt(mean / sm.get_resolution())
    else:
        sig = sm.get_resolution() * math.sqrt(mean)
    if not poisson:
        return -(x - mean) ** 2 / (2 * sig ** 2)
    ly = sm.get_resolution() if kind == "ly" else 1. / sm.get_resolution() ** 2
    return x * ly, mean * ly


def run(kind, rank, poisson):
    cls, name = KINDS[kind]

    def h(W):
        import math
        import itertools
        import numpy
        j = W.choose("axis", list(range(rank)))
        ax = []
        for i in range(rank):
            n = name if i == j else ("zed_pos_truth", "cos_angle_mc")[i - (i > j)]
            lo = S.LOWS if i != j else [0., 0., .5, 1., 10., 3.]
            ax.append(S.Axis(n, W.real("low%d" % i, pool=lo), W.real("width%d" % i, gt=0, pool=S.WIDTHS), W.dim("bins%d" % i)))
        W.require(W.le(0, ax[j].low))
        sp, _, d = S.make(W, rank, axes=ax, lo=0)
        mode = W.choose("content", ["all", "one", "half"])
        d = numpy.array(d, dtype=float)
        if mode == "one":
            d *= 0
            cell = tuple(W.int("cell%d" % i, lo=0) % a.bins for i, a in enumerate(ax))
            d[cell] = W.real("entries", gt=0, pool=[1., 7., .25, 100.])
        elif mode == "half":
            d[(numpy.indices(d.shape).sum(axis=0) % 2) == 0] = 0
        sp._data = d.copy()
        s = S.Snap(W, sp)
        sm = smearer(W, kind, poisson)
        mean_lo = ax[j].low + .5 * ax[j].width
        q = W.call(lambda: sm.weighted_smear(sp, par=name))
        W.check("accepted", q.ok)
        if not q.ok:
            return
        t = q.value
        S.check_unchanged(W, "original", sp, s)
        W.check("a new spectrum", t is not sp and t._data is not sp._data)
        W.check("raw events and decays kept", W.and_(W.same(t._raw_events, s.raw), W.same(t._num_decays, s.nd)))
        W.check("binning", S.same_binning(W, t, s))
        W.check("shape", t._data.shape == d.shape)
        if t._data.shape != d.shape:
            return
        W.check("no negative bin", bool((t._data >= 0).all()))
        a, b = t._data.sum(axis=j), d.sum(axis=j)
        W.check("every row conserved", bool((abs(a - b) <= 1e-9 * (1e-300 + abs(b))).all()))
        W.check("empty rows stay empty", bool((numpy.asarray(a)[numpy.asarray(b) == 0] == 0).all()))
        if mode != "one":
            return
        row = t._data[cell[:j] + (slice(None),) + cell[j + 1:]]
        hit = [i for i in range(len(row)) if row[i] > 0]
        W.check("one window of bins around the bin", bool(hit) and hit[0] <= cell[j] <= hit[-1] and
                all(row[i] > 0 for i in range(hit[0], hit[-1] + 1) if row[i] != 0 or row[hit].max() * 1e-250 > 0))
        mean = ax[j].low + (cell[j] + .5) * ax[j].width
        centre = lambda i: ax[j].low + (i + .5) * ax[j].width
        ref = cell[j]
        if row[ref] <= 0:
            return
        for i in hit:
            if not poisson:
                e = weight_at(W, kind, sm, poisson, centre(i), mean) - weight_at(W, kind, sm, poisson, mean, mean)
                ok = abs(math.log(row[i] / row[ref]) - e) <= 1e-6 * max(1., abs(e)) or e < -600
            else:
                (n1, mu), (n0, _) = weight_at(W, kind, sm, poisson, centre(i), mean), weight_at(W, kind, sm, poisson, mean, mean)
                ok = False
                for k1 in {math.floor(n1 + o) for o in (-1e-6, 1e-6)}:
                    for k0 in {math.floor(n0 + o) for o in (-1e-6, 1e-6)}:
                        e = (k1 - k0) * math.log(mu) - math.lgamma(k1 + 1) + math.lgamma(k0 + 1)
                        ok = ok or abs(math.log(row[i] / row[ref]) - e) <= 1e-6 * max(1., abs(e)) or e < -600
            W.check("in proportion to the smearing function", ok)
    h.__name__ = "spread_%s_rank%d%s" % (kind, rank, "_poisson" if poisson else "")
    h.__doc__ = "%s.weighted_smear with the real Spectra.fill" % cls
    harness(H, contracts=[cls + ".weighted_smear", "Spectra.fill", cls + ".calc_poisson_energy", "Smear.calc_gaussian"], assumes=A, sym=False,
            cases=400, bound="400 random spectra of %d axes (every axis smeared), up to a few bins per axis" % rank)(h)


for k in KINDS:
    for p in ((False, True) if k != "pos" else (False,)):
        for n in (1, 2, 3):
            run(k, n, p)


def refuse(kind):
    cls, name = KINDS[kind]

    def h(W):
        sp, _, d = S.make(W, 1, axes=[S.axis(W, 0, name="zed_pos_truth")], lo=0)
        s = S.Snap(W, sp)
        m = W.module("echidna.core.smear")
        sm = getattr(m, cls)()
        sm.set_resolution(W.real("resolution", gt=0, lt=1, pool=[.5, .1]))
        q = W.call(lambda: sm.weighted_smear(sp, par=W.choose("par", [name, "no_such", ""])))
        W.check("IndexError", q.raised("IndexError"))
        S.check_unchanged(W, "original", sp, s)
    h.__name__ = "unknown_axis_" + kind
    h.__doc__ = "%s.weighted_smear of an axis the spectrum does not have is refused" % cls
    harness(H, contracts=[cls + ".weighted_smear"])(h)


for k in KINDS:
    refuse(k)
