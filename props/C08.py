"""C08: scaling"""
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C08"
ND = [1., 10., 2.5, 1000., .5, 64., .125, 3.]


def once(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        n = W.real("n", pool=ND + [0., -2.]) if W.choose("type", ["real", "int"]) == "real" else W.int("n_int")
        r = W.call(lambda: sp.scale(n))
        W.check("accepted", r.ok)
        if r.ok:
            W.check("binning unchanged", S.same_binning(W, sp, s))
            W.check("other scaling information unchanged", S.same_scaling(W, sp, s, but=("num_decays",)))
            W.check("new number of decays", W.eq(sp.get_num_decays(), n))
            W.check("shape", W.eq(tuple(W.shape(sp._data)), tuple(s.shape)))
            W.check_all("every bin times the ratio", s.shape, lambda *i: W.eq(
                W.at(sp._data, *i), W.at(d, *i) * W.div(n * W.num("1"), s.nd)))
            W.check("total times the ratio", W.eq(sp.sum(), W.sum(s.shape, lambda *i: W.at(d, *i)) * W.div(n * W.num("1"), s.nd)))
    h.__name__ = "scale_rank%d" % rank
    h.__doc__ = "scale(n) multiplies every bin by n/num_decays, records n, changes nothing else"
    return h


def twice(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        n1 = W.real("n1", gt=0, pool=ND) if W.choose("first", ["real", "int"]) == "real" else W.int("n1_int", lo=1)
        back = W.choose("second", ["original", "other", "other int"])
        n2 = s.nd if back == "original" else W.real("n2", gt=0, pool=ND) if back == "other" else W.int("n2_int", lo=1)
        a = W.call(lambda: sp.scale(n1))
        b = W.call(lambda: sp.scale(n2))
        W.check("accepted", a.ok and b.ok)
        if a.ok and b.ok:
            W.check("number of decays is the last value", W.eq(sp._num_decays, n2))
            W.check_all("as scaling once" if back != "original" else "content restored", s.shape, lambda *i: W.eq(
                W.at(sp._data, *i), W.at(d, *i) * W.div(n2 * W.num("1"), s.nd)))
    h.__name__ = "scale_twice_rank%d" % rank
    h.__doc__ = "scaling twice is scaling once to the last value; back to the original number restores the content"
    return h


for r in (1, 2, 3):
    for f in (once, twice):
        harness(H, contracts=["Spectra.scale", "Spectra.sum"], assumes=["the number of axes is enumerated 1..3"])(f(r))
