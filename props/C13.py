"""C13: projections"""
import itertools
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C13"
A = ["the number of axes is enumerated 1..4"]


def marginal(W, name, a, d, ax, keep):
    ok = W.isarray(a) and len(W.shape(a)) == len(keep)
    shp = tuple(ax[j].bins for j in keep)
    W.check(name + ": shape", ok and W.eq(tuple(W.shape(a)), shp))
    if ok:
        drop = [j for j in range(len(ax)) if j not in keep]

        def entry(*i):
            def at(*k):
                ix = dict(zip(keep, i))
                ix.update(zip(drop, k))
                return W.at(d, *[ix[j] for j in range(len(ax))])
            return W.sum(tuple(ax[j].bins for j in drop), at) if drop else at()
        W.check_all(name + ": marginal sums", shp, lambda *i: W.eq(W.at(a, *i), entry(*i)))
        W.check(name + ": total preserved", W.eq(W.sum(shp, lambda *i: W.at(a, *i)),
                                                 W.sum(tuple(x.bins for x in ax), lambda *i: W.at(d, *i))))


def one(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        j = W.choose("axis", list(range(rank)))
        r = W.call(lambda: sp.project(ax[j].name))
        W.check("accepted", r.ok)
        if r.ok:
            marginal(W, "projection", r.value, d, ax, [j])
            if rank == 1 and W.isarray(r.value):        # a change of the result does not reach the spectrum
                r.value[0] = W.num("1.5")
        S.check_unchanged(W, "spectrum", sp, s)
        u = W.call(lambda: sp.project("nosuch_mc"))
        W.check("unknown axis refused", u.raised("IndexError"))
    h.__name__ = "project_rank%d" % rank
    h.__doc__ = "project(axis)[i] is the sum over all other axes; spectrum unchanged"
    return h


def two(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        i, j = W.choose("axes", list(itertools.permutations(range(rank), 2)))
        r = W.call(lambda: sp.surface(ax[i].name, ax[j].name))
        W.check("accepted", r.ok)
        if r.ok:
            marginal(W, "surface", r.value, d, ax, sorted([i, j]))
        S.check_unchanged(W, "spectrum", sp, s)
    h.__name__ = "surface_rank%d" % rank
    h.__doc__ = "surface(axis1, axis2): sums over all other axes, indexed in spectrum order; spectrum unchanged"
    return h


def many(rank):
    def h(W):
        sp, ax, d = S.make(W, rank)
        s = S.Snap(W, sp)
        opts = [c for k in range(1, rank + 1) for c in itertools.combinations(range(rank), k)]
        if rank <= 3:
            opts = [p for c in opts for p in itertools.permutations(c)]
        keep = W.choose("axes", opts)
        names = [ax[j].name for j in keep]
        r = W.call(lambda: sp.nd_project(W.list(names)))
        W.check("accepted", r.ok)
        if r.ok:
            marginal(W, "projection", r.value, d, ax, sorted(keep))
            if len(keep) == rank and W.isarray(r.value):
                r.value[tuple([0] * rank)] = W.num("1.5")
        S.check_unchanged(W, "spectrum", sp, s)
    h.__name__ = "nd_project_rank%d" % rank
    h.__doc__ = "nd_project(set of axes): sums over all other axes, indexed in spectrum order; spectrum unchanged"
    return h


for r in (1, 2, 3, 4):
    harness(H, contracts=["Spectra.project"], assumes=A)(one(r))
    if r > 1:
        harness(H, contracts=["Spectra.surface"], assumes=A)(two(r))
    harness(H, contracts=["Spectra.nd_project"], assumes=A)(many(r))
