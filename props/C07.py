"""C07: axis bins"""
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C07"
POS = [0., .5, .25, 1., 1.5, 2., 2.75, 3., 3.984375, 4., 4.5, 5., 6.25]


def mk(W):
    a = S.axis(W, 0)
    name = W.choose("axis name", ["energy_mc", "radial3_reco", "zed_pos_truth"])
    a.name = name
    return a, S.par(W, a)


def same(W, p, a):
    W.check("axis unchanged", W.and_(W.same(p._low, a.low), W.eq(p._high, a.high), W.same(p._bins, a.bins),
                                     p._name == a.name))


@harness(H, contracts=["SpectraParameter.get_bin", "SpectraParameter.get_bin_boundaries", "Parameter.get_width"])
def bin_of_value(W):
    """the bin of a value in range is the one whose edges enclose it; the upper bound is in the last bin"""
    a, p = mk(W)
    b = W.int("bin", lo=0, hi=None if W.sym else a.bins - 1)
    f = W.real("frac", lo=0, lt=1, pool=[0., .5, .25, .75, .984375])
    W.require(W.lt(b, a.bins))
    r = W.call(lambda: p.get_bin(a.low + (b + f) * a.width))
    W.check("accepted", r.ok)
    if r.ok:
        W.check("the enclosing bin", W.eq(r.value, b))
    e = W.call(lambda: p.get_bin_boundaries())
    W.check("boundaries available", e.ok)
    if e.ok and r.ok:
        W.check("lower edge encloses", W.le(W.at(e.value, b), a.low + (b + f) * a.width))
        W.check("upper edge encloses", W.lt(a.low + (b + f) * a.width, W.at(e.value, b + 1)))
    u = W.call(lambda: p.get_bin(p.get_high()))
    W.check("the upper bound belongs to the last bin", u.ok and W.eq(u.value, a.bins - 1))
    same(W, p, a)


@harness(H, contracts=["SpectraParameter.get_bin"])
def value_out_of_range(W):
    """values below the low or above the high bound: ValueError"""
    a, p = mk(W)
    t = W.real("pos", pool=POS + [-x for x in POS])
    W.require(W.or_(W.lt(t, 0), W.lt(a.bins, t)))
    r = W.call(lambda: p.get_bin(a.low + t * a.width))
    W.check("refused with ValueError", r.raised("ValueError"))
    same(W, p, a)


@harness(H, contracts=["SpectraParameter.get_bin_centre", "SpectraParameter.get_bin", "Parameter.get_width"])
def centre_of_bin(W):
    """the centre of bin i is low+(i+1/2)*width and lies in bin i; bins outside 0..bins-1 and non-integers are refused"""
    a, p = mk(W)
    i = W.int("i", lo=None if W.sym else -3, hi=None if W.sym else a.bins + 3)
    r = W.call(lambda: p.get_bin_centre(i))
    if W.and_(W.le(0, i), W.lt(i, a.bins)):
        W.check("accepted", r.ok)
        if r.ok:
            W.check("centre", W.eq(r.value, a.low + (i + W.num("0.5")) * a.width))
            b = W.call(lambda: p.get_bin(r.value))
            W.check("centre lies in its bin", b.ok and W.eq(b.value, i))
    else:
        W.check("refused with ValueError", r.raised("ValueError"))
    x = W.choose("not an integer", ["float", "str", "None", "list"])
    x = {"float": W.num("0.5"), "str": "1", "None": None, "list": [0]}[x]
    t = W.call(lambda: p.get_bin_centre(x))
    W.check("refused with TypeError", t.raised("TypeError"))
    same(W, p, a)


@harness(H, contracts=["SpectraParameter.get_bin_centre"])
def centre_of_float_bin(W):
    """a bin number of floating point type (whole or not) is refused with TypeError"""
    a, p = mk(W)
    x = W.real("x", pool=[0., 1., -1., .5, 2.])
    t = W.call(lambda: p.get_bin_centre(x))
    W.check("refused with TypeError", t.raised("TypeError"))


@harness(H, contracts=["SpectraParameter.get_bin_centres", "SpectraParameter.get_bin_centre", "SpectraParameter.get_bin_boundaries"])
def lists(W):
    """centres and boundaries have bins and bins+1 equally spaced entries from low to high"""
    a, p = mk(W)
    c = W.call(lambda: p.get_bin_centres())
    e = W.call(lambda: p.get_bin_boundaries())
    W.check("available", c.ok and e.ok)
    if c.ok and e.ok:
        W.check("number of centres", W.eq(W.len(c.value), a.bins))
        W.check("number of boundaries", W.eq(W.len(e.value), a.bins + 1))
        W.check_all("boundary", a.bins + 1, lambda i: W.eq(W.at(e.value, i), a.low + i * a.width))
        W.check_all("centre", a.bins, lambda i: W.eq(W.at(c.value, i), a.low + (i + W.num("0.5")) * a.width))
        W.check("last boundary is the upper bound", W.eq(W.at(e.value, a.bins), p.get_high()))
    W.check("width", W.eq(p.get_width(), a.width))
    W.check("get_low, get_high, get_bins, get_name", W.and_(W.eq(p.get_low(), a.low), W.eq(p.get_high(), a.high),
                                                           W.eq(p.get_bins(), a.bins), p.get_name() == a.name))
    same(W, p, a)


@harness(H, contracts=["SpectraParameter.round"])
def round_to_edge(W):
    """rounding a value gives a bin edge that is at most half a width away"""
    a, p = mk(W)
    k = W.int("edge")
    f = W.real("frac", gt="-0.5", lt="0.5", pool=[0., .25, -.25, .375, -.4375])
    r = W.call(lambda: p.round(a.low + (k + f) * a.width))
    W.check("accepted", r.ok)
    if r.ok:
        W.check("nearest edge", W.eq(r.value, a.low + k * a.width))
    h = W.call(lambda: p.round(a.low + (k + W.num("0.5")) * a.width))
    W.check("half way: one of the two nearest edges", h.ok and
            W.or_(W.eq(h.value, a.low + k * a.width), W.eq(h.value, a.low + (k + 1) * a.width)))
    same(W, p, a)


@harness(H, contracts=["SpectraParameter.set_par"])
def reset_bounds(W):
    """after set_par the look-ups describe the new bounds and number of bins; unknown names are refused with TypeError"""
    a, p = mk(W)
    b = S.axis(W, 0, prefix="new_")
    r = W.call(lambda: p.set_par(low=b.low, high=b.high, bins=b.bins))
    W.check("accepted", r.ok)
    if r.ok:
        W.check("new width", W.eq(p.get_width(), b.width))
        e = W.call(lambda: p.get_bin_boundaries())
        W.check("available", e.ok)
        if e.ok:
            W.check("number of boundaries", W.eq(W.len(e.value), b.bins + 1))
            W.check_all("boundary", b.bins + 1, lambda i: W.eq(W.at(e.value, i), b.low + i * b.width))
    u = W.call(lambda: p.set_par(width=b.low))
    W.check("unknown name refused with TypeError", u.raised("TypeError"))
