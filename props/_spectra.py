"""spectra with 1..4 axes of any (symbolic) size, low bound and bin width, and any content"""
from collections import OrderedDict
NAMES = ("energy_mc", "radial_reco", "zed_pos_truth", "cos_angle_mc")
LOWS = [0., 1., -2., .5, 0.25, 10., -7.75, 100.]
WIDTHS = [1., .5, .25, 2., 3., .125, 10., 1.5]


class Axis(object):
    def __init__(self, name, low, width, bins):
        self.name, self.low, self.width, self.bins = name, low, width, bins

    @property
    def high(self):
        return self.low + self.width * self.bins


def axis(W, j, name=None, prefix="", max_sym=None):
    name = name or NAMES[j]
    return Axis(name, W.real("%slow%d" % (prefix, j), pool=LOWS), W.real("%swidth%d" % (prefix, j), gt=0, pool=WIDTHS),
                W.dim("%sbins%d" % (prefix, j)))


def par(W, a):
    return W.module("echidna.core.parameter").SpectraParameter(a.name, a.low, a.high, a.bins)


def config(W, axes, name="cfg"):
    return W.module("echidna.core.config").SpectraConfig(name, OrderedDict([(a.name, par(W, a)) for a in axes]))


def make(W, rank, prefix="", axes=None, lo=None, gt=None, k="r", num_decays=None, pool=None, cfg=None):
    """(spectrum, axes, content array) - the content, decays and raw events are arbitrary"""
    if axes is None:
        axes = [axis(W, j, prefix=prefix) for j in range(rank)]
    nd = W.real(prefix + "num_decays", gt=0, pool=[1., 10., 2.5, 1000., .5, 64.]) if num_decays is None else num_decays
    sp = W.module("echidna.core.spectra").Spectra(prefix + "spec", nd, cfg or config(W, axes))
    d = W.array(prefix + "data", tuple(a.bins for a in axes), lo=lo, gt=gt, pool=pool)
    sp._data = W.copy(d)
    sp._raw_events = W.int(prefix + "raw", lo=0)
    return sp, axes, d


class Snap(object):
    """observable state of a spectrum"""
    def __init__(self, W, sp):
        self.sp, self.cfg = sp, sp._config
        self.data = W.copy(sp._data)
        self.shape = W.shape(sp._data)
        self.nd, self.raw, self.name, self.bipo = sp._num_decays, sp._raw_events, sp._name, sp._bipo
        self.style = dict(sp._style) if isinstance(sp._style, dict) else sp._style
        self.rois = dict((k, dict(v)) for k, v in sp._rois.items())
        self.pars = list(sp._config.get_pars())
        self.binning = [(p._low, p._high, p._bins) for p in [sp._config.get_par(v) for v in self.pars]]


def same_binning(W, sp, s, but=()):
    if list(sp._config.get_pars()) != s.pars:
        return False
    ok = []
    for v, (lo, hi, b) in zip(s.pars, s.binning):
        if v in but:
            continue
        p = sp._config.get_par(v)
        ok += [W.same(p._low, lo), W.same(p._high, hi), W.same(p._bins, b)]
    return W.and_(True, *ok)


def same_scaling(W, sp, s, but=()):
    c = [sp._name == s.name, (dict(sp._style) if isinstance(sp._style, dict) else sp._style) == s.style]
    if "num_decays" not in but:
        c.append(W.same(sp._num_decays, s.nd))
    if "raw" not in but:
        c.append(W.same(sp._raw_events, s.raw))
    if "bipo" not in but:
        c.append(W.same(sp._bipo, s.bipo))
    if "rois" not in but:
        c.append(sorted(sp._rois) == sorted(s.rois) and
                 W.and_(True, *[W.and_(*[W.same(sp._rois[k][q], s.rois[k][q]) for q in s.rois[k]]) for k in s.rois]))
    return W.and_(*c)


def check_same_data(W, name, a, s):
    ok = W.isarray(a) and len(W.shape(a)) == len(s.shape)
    W.check(name + ": shape", ok and W.eq(tuple(W.shape(a)), tuple(s.shape)))
    if ok:
        W.check_all(name, s.shape, lambda *i: W.same(W.at(a, *i), W.at(s.data, *i)))


def check_unchanged(W, what, sp, s):
    W.check(what + ": binning unchanged", same_binning(W, sp, s))
    W.check(what + ": scaling unchanged", same_scaling(W, sp, s))
    check_same_data(W, what + ": content unchanged", sp._data, s)


def total(W, shape, fn):
    return W.sum(tuple(shape), fn)
