"""C28: the comparison made by a fit at trial values"""
from collections import OrderedDict
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C28"
C = ["Fit.__init__", "Fit._funct", "Fit.fit", "Fit.check_fitter", "Fit.check_all_spectra", "Fit.check_spectra", "Fit.check_fit_config",
     "Fit.check_roi", "Fit.get_roi_pars", "Fit.make_fixed_background", "Fit.append_fixed_background", "Fit.set_data", "Fit.set_signal",
     "Fit.set_floating_backgrounds", "Fit.shrink_spectra", "Fit.shrink_to_data", "RateParameter.apply_to", "Spectra.scale",
     "Spectra.shrink", "Spectra.rebin", "Spectra.nd_project", "Spectra.add", "SpectraConfig.copy"]
A = ["one or two axes, one or two floating and fixed backgrounds, up to two global systematics, three evaluations after each other are enumerated; "
     "number and width of bins, content, decays, rates, priors and sigmas are arbitrary, the spectra share the data's range",
     "a global systematic is an arbitrary linear map of the content that gives a new spectrum (C14 to C16), at the trial values 0.5, 0.5+2^-45 and 2",
     "the test statistic and its penalty are arbitrary functions (C12, C13 cover the real ones)"]
VALUES = [0.5, 0.5 + 2. ** -45, 2.]


class Stat(object):
    """records what is compared; the statistic and the penalties are arbitrary"""
    _per_bin = False

    def __init__(self, W):
        self.W, self.calls = W, []
        self.value, self.pen = W.func("statistic", 1), W.func("penalty", 3)

    def compute_statistic(self, observed, expected):
        self.calls.append((observed, expected))
        return self.value(self.W.num(str(len(self.calls))))

    def get_penalty_term(self, current, prior, sigma):
        return self.pen(current, prior, sigma)


def systematic(W, name, sigma):
    """a global parameter whose systematic is a linear map of the content"""
    w, u = W.func(name + "_w", 1, 2, pool=[1., 2., .5, 0.]), W.func(name + "_u", 1, 2, pool=[0., 1., .25])
    par = W.module("echidna.core.parameter").FitParameter(name, W.num("0.5"), sigma, 0., 4., 5, dimension="energy")

    def image(v, at):
        first = lambda n: (0,) * n
        def f(*i):
            j = i + (0,) * (2 - len(i))
            return w(v, *j) * at(*i) + u(v, *j) * at(*first(len(i)))
        return f

    def apply_to(sp):
        v, old = par.get_current_value(), sp._data
        new = W.module("echidna.core.spectra").Spectra(sp._name + "_" + name, sp._num_decays, sp._config)
        new._data = W.build(tuple(W.shape(old)), image(v, lambda *i: W.at(old, *i)))
        return new
    par.apply_to = apply_to
    return par, image


class Source(object):
    """a given spectrum with what it held at first"""
    def __init__(self, W, name, ax, factor, rate=None):
        self.ax = [S.Axis(a.name, a.low, W.div(a.width, W.num(str(f))), a.bins * f) for a, f in zip(ax, factor)]
        self.factor = factor
        sp, _, d = S.make(W, len(ax), prefix=name + "_", axes=self.ax, pool=[0., 1., 2., 3., 5., .5])
        self.sp, self.d, self.nd, self.name = sp, d, sp._num_decays, sp._name
        if rate is not None:
            c = W.module("echidna.core.config").SpectraFitConfig("c_" + name, OrderedDict([("rate", rate)]), name)
            sp.set_fit_config(c)

    def projected(self, W, keep, at):
        """content over the axes in keep, in bins of the data"""
        def f(*i):
            sizes, pos = [], dict(zip(keep, i))
            for j, a in enumerate(self.ax):
                sizes.append(self.factor[j] if j in pos else a.bins)
            return W.sum(tuple(sizes), lambda *k: at(*[pos[j] * self.factor[j] + x if j in pos else x for j, x in enumerate(k)]))
        return f


def mk(rank, nfloat, nglob, signal=False, fixed=1, roi=1, factor=1, single=False, rated=None, name="", late=False, **kw):
    def h(W):
        ax = [S.axis(W, j) for j in range(rank)]
        data = Source(W, "data", ax, (1,) * rank)
        rated_ = [True] * nfloat if rated is None else rated
        P = W.module("echidna.core.parameter")
        rates, floats = [], []
        for k in range(nfloat):
            p = None
            if rated_[k]:
                sg = W.real("sigma%d" % k, gt=0) if k == 0 else None
                p = P.RateParameter("rate", W.real("prior%d" % k, gt=0), sg, 0., 10., 3)
            rates.append(p)
            floats.append(Source(W, "float%d" % k, ax, (factor,) * rank, p))
        fixs = [Source(W, "fixed%d" % k, ax, (1,) * rank) for k in range(fixed)]
        fp = [W.real("fixed_prior%d" % k, pool=[1., 2., 5., 0.]) for k in range(fixed)]
        sig = Source(W, "signal", ax, (factor if nglob else 1,) * rank) if signal else None
        glob = W.module("echidna.core.config").GlobalFitConfig("fit", OrderedDict())
        sys = [systematic(W, "sys%d" % k, W.real("gsigma%d" % k, gt=0) if k == 0 else None) for k in range(nglob)]
        for p, _ in sys:
            glob.add_par(p, "global")
        keep = list(range(roi))
        region = OrderedDict((ax[j].name.rsplit("_", 1)[0], (ax[j].low, ax[j].high)) for j in keep)
        stat = Stat(W)
        given = [data] + floats + fixs + ([sig] if sig else [])
        snaps = [S.Snap(W, x.sp) for x in given]
        def build():
            F = W.module("echidna.fit.fit").Fit
            fl, fx = [x.sp for x in floats] or None, OrderedDict((x.sp, p) for x, p in zip(fixs, fp)) or None
            if not late:
                return F(region, stat, fit_config=glob, data=data.sp, floating_backgrounds=fl, fixed_backgrounds=fx,
                         signal=sig.sp if sig else None, single_bin=single, minimiser=Mini())
            fit = F(region, stat, fit_config=glob, single_bin=single)
            fit.set_data(data.sp)
            fit.make_fixed_background(OrderedDict([(fixs[0].sp, fp[0])]))
            for x, p in zip(fixs[1:], fp[1:]):
                fit.append_fixed_background({x.sp: p})
            fit.set_floating_backgrounds(fl)
            fit.set_minimiser(Mini())
            if sig:
                fit.set_signal(sig.sp)
            return fit
        q = W.call(build)
        W.check("a fit", q.ok)
        if not q.ok:
            return
        fit = q.value
        scale = W.real("signal decays", pool=[1., 2., 4.], gt=0) if signal else None
        trials = []
        for t in range(2):
            gs = [W.choose("global %d of trial %d" % (k, t), VALUES if t else VALUES[:1]) for k in range(nglob)]
            trials.append((gs, [W.real("rate%d of trial %d" % (k, t), lo=0, pool=[0., 1., 2., .5]) if p else None
                                for k, p in enumerate(rates)]))
        for n, (gs, rs) in enumerate([trials[0], trials[1], trials[0]]):
            if n == 1 and signal:       # as a limit does
                sig.sp.scale(scale)
            args = list(gs) + [r for r in rs if r is not None]
            before = len(stat.calls)
            q = W.call(lambda: fit._funct(*args) if floats else fit.fit())
            W.check("evaluated", q.ok)
            if not q.ok:
                return
            W.check("compared once", len(stat.calls) == before + 1)
            if len(stat.calls) != before + 1:
                return
            obs, exp = stat.calls[-1]
            shape = tuple(ax[j].bins for j in keep)

            def image(at):
                for (p, im), v in zip(sys, gs):
                    at = im(v, at)
                return at

            def content(x, convolve=True):
                at = lambda *i: W.at(x.d, *i)
                return x.projected(W, keep, image(at) if convolve else at)

            def total(*i):
                s = 0
                for x, p in zip(fixs, fp):
                    s = s + content(x, False)(*i) * W.div(p, x.nd)
                for x, r in zip(floats, rs):
                    s = s + (content(x)(*i) if r is None else content(x)(*i) * W.div(r, x.nd))
                if sig:
                    s = s + (content(sig)(*i) if n == 0 else content(sig)(*i) * W.div(scale, sig.nd))
                return s
            want_obs = content(data, False)
            if single:
                W.check("observed total", W.eq(W.at(obs, *[0] * len(W.shape(obs))), W.sum(shape, want_obs)))
                W.check("expected total", W.eq(W.at(exp, *[0] * len(W.shape(exp))), W.sum(shape, total)))
            else:
                size = 1
                for x in shape:
                    size = size * x
                W.check("flat", len(W.shape(obs)) == 1 and len(W.shape(exp)) == 1)
                W.check("all bins", W.and_(W.eq(W.shape(obs)[0], size), W.eq(W.shape(exp)[0], size)))
                flat = lambda i: i[0] if len(i) == 1 else i[0] * shape[1] + i[1]
                W.check_all("observed", shape, lambda *i: W.eq(W.at(obs, flat(i)), want_obs(*i)))
                W.check_all("expected", shape, lambda *i: W.eq(W.at(exp, flat(i)), total(*i)))
            value = stat.value(W.num(str(len(stat.calls))))
            pen = 0
            for (p, im), v in zip(sys, gs):
                if p.get_sigma() is not None:
                    pen = pen + stat.pen(v, p.get_prior(), p.get_sigma())
            for p, r in zip(rates, rs):
                if p is not None and p.get_sigma() is not None:
                    pen = pen + stat.pen(r, p.get_prior(), p.get_sigma())
            if floats:
                W.check("statistic and penalty", len(q.value) == 2 and W.and_(W.eq(q.value[0], value), W.eq(q.value[1], pen)))
            else:
                W.check("statistic", W.eq(q.value, value))
        for x, s in zip(given, snaps):
            if x is data or x in fixs:
                S.check_unchanged(W, "given " + x.name, x.sp, s)
            elif x is not sig:
                W.check("scaling of %s unchanged" % x.name, W.same(x.sp._num_decays, x.nd))
                if factor == 1:
                    S.check_same_data(W, "content of %s unchanged" % x.name, x.sp._data, s)
    h.__name__ = "compare_rank%d_float%d_glob%d%s%s%s%s%s%s" % (
        rank, nfloat, nglob, "_signal" if signal else "", "_fixed%d" % fixed if fixed != 1 else "", "_roi%d" % roi if roi != rank else "",
        "_finer%d" % factor if factor != 1 else "", "_single" if single else "", name)
    h.__doc__ = ("%d floating, %d fixed, %s signal, %d global systematics, %d of %d axes compared%s" % (
        nfloat, fixed, "a" if signal else "no", nglob, roi, rank, ", total only" if single else ""))
    harness(H, contracts=C, assumes=A, cases=150, size=3, **kw)(h)


class Mini(object):
    _per_bin = False

    def get_name(self):
        return "mini"


mk(1, 0, 0)
mk(1, 0, 0, signal=True)
mk(1, 1, 0)
mk(1, 1, 0, signal=True, factor=2)
mk(1, 2, 0, signal=True, fixed=2)
mk(1, 2, 0, fixed=0, rated=[True, False], name="_unrated")
mk(1, 1, 1, signal=True)
mk(1, 2, 1, fixed=0, factor=2)
mk(1, 2, 2, signal=True)
mk(1, 1, 1, signal=True, single=True)
mk(2, 1, 0, signal=True, roi=1)
mk(2, 1, 1, signal=True, roi=2, vc_ms=40000, max_s=400)
mk(1, 2, 0, signal=True, fixed=3, late=True, name="_set_later")
mk(2, 2, 0, signal=True, roi=2, late=True, name="_set_later")
