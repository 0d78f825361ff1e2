"""C27: filling spectra from event files"""
from collections import OrderedDict
from pyvc.runner import harness
from props import _spectra as S
H = []
ID = "C27"
A = ["files are stand-ins for RAT's reader and ROOT's chain: any number of entries and of triggered events per entry, with arbitrary "
     "positions, energies and flags; every entry has a Monte Carlo particle and every triggered event a reconstructed position",
     "axes: the sets named in the harness"]
XS = [0., 1., -1., 3., 4., -5.5, 2., 12., 5., 1.25]
EX = ["function_factory", "EnergyExtractMC", "EnergyExtractReco", "EnergyExtractTruth", "RadialExtractReco", "Radial3ExtractMC",
      "RadialExtractMC"]


class Thing(object):
    def __init__(self, **k):
        self.__dict__.update((n, (lambda v: lambda *i: v)(v)) for n, v in k.items())


class Vec(object):
    def __init__(self, mag, z):
        self.mag, self.z = mag, z

    def Mag(self):
        return self.mag

    def __getitem__(self, i):
        return self.z


class Root(object):
    """RAT's reader: entry i has count[i] triggered events"""
    def __init__(self, W):
        self.W = W
        n = self.n = W.dim("entries", lo=0)
        self.count = W.array("evs", (n,), lo=0, hi=None if W.sym else 3, k="i", pool=None if W.sym else [1, 0, 2, 1, 3])
        self.q, self.t = W.array("quenched", (n,), pool=XS), W.array("truth", (n,), pool=XS)
        self.r = W.array("mc radius", (n,), lo=0, pool=XS)
        self.e, self.p = W.func("energy", 0, 2, pool=XS), W.func("radius", 0, 2, pool=[abs(x) for x in XS])
        self.f = [W.func(x, 0, 2, pool=[1., 1., -1.]) for x in ("exists", "contains energy", "valid energy", "contains pos", "valid pos")]

    def GetEntryCount(self):
        return self.n

    def GetEntry(self, i):
        W = self.W
        mc = Thing(GetMCParticleCount=1, GetMCParticle=Thing(GetPosition=Vec(W.at(self.r, i), W.num("1"))),
                   GetScintQuenchedEnergyDeposit=W.at(self.q, i), GetScintEnergyDeposit=W.at(self.t, i))
        ds = Thing(GetMC=mc, GetEVCount=W.at(self.count, i))
        ds.GetEV = lambda j: self.ev(i, j)
        return ds

    def flags(self, i, j):
        if self.W.sym:      # (each flag's part in the decision is proved in C26)
            return [True, True, self.W.lt(0, self.f[2](i, j)), True, self.W.lt(0, self.f[4](i, j))]
        return [self.W.lt(0, f(i, j)) for f in self.f]

    def ev(self, i, j):
        x, cE, vE, cP, vP = self.flags(i, j)
        v = Thing(ContainsEnergy=cE, ValidEnergy=vE, ContainsPosition=cP, ValidPosition=vP, GetEnergy=self.e(i, j),
                  GetPosition=Vec(self.p(i, j), self.W.num("1")))
        return Thing(DefaultFitVertexExists=x, GetDefaultFitVertex=v)

    # what the extractors are to say (C26)
    def value(self, dim, i, j):
        W = self.W
        return {"energy_mc": lambda: W.at(self.q, i), "energy_truth": lambda: W.at(self.t, i), "energy_reco": lambda: self.e(i, j),
                "radial_mc": lambda: W.at(self.r, i), "radial_reco": lambda: self.p(i, j)}[dim]()

    def ok(self, dim, i, j, fv):
        W = self.W
        if not dim.endswith("reco"):
            return True if fv is None else W.lt(W.at(self.r, i), fv)
        x, cE, vE, cP, vP = self.flags(i, j)
        c = W.and_(x, cE, vE) if dim == "energy_reco" else W.and_(x, cP, vP)
        return W.and_(c, True if fv is None else W.lt(self.p(i, j), fv))


class Cur(object):
    def __init__(self):
        self.i = None


class Chain(object):
    """ROOT's chain of ntuple entries: the loop variable is the chain itself, its branches those of the current entry"""
    def __init__(self, W):
        self._W = W
        n = self._n = W.dim("entries", lo=0)
        one = [1, 1, 0]
        self._a = {x: W.array(x, (n,), pool=XS) for x in ("energy", "mcEdep", "mcEdepQuenched", "posx", "mcPosx")}
        self._a.update((x, W.array(x, (n,), k="i", pool=one)) for x in ("mc", "scintFit"))
        self._a["evIndex"] = W.array("evIndex", (n,), k="i", pool=[0, 0, 1, 2, -1])
        self._added = []
        self._cur = Cur()

    def Add(self, name):
        self._added.append(name)

    def GetEntries(self):
        return self._n

    def __getattr__(self, x):
        if x.startswith("_"):
            raise AttributeError(x)
        if x in ("posy", "posz", "mcPosy", "mcPosz"):
            return self._W.num("0")
        if x not in self._a:
            raise AttributeError(x)
        return self._W.at(self._a[x], self._cur.i)

    def _go(self, i):
        self._cur.i = i
        return self

    def _pyvc_iter(self):
        return self._n, self._go

    def __iter__(self):
        for i in range(self._n):
            yield self._go(i)

    def _at(self, x, i):
        return self._W.at(self._a[x], i)

    def _value(self, dim, i):
        W = self._W
        r = {"radial_mc": "mcPosx", "radial_reco": "posx"}
        if dim in r:
            return W.abs(self._at(r[dim], i))
        return self._at({"energy_mc": "mcEdepQuenched", "energy_truth": "mcEdep", "energy_reco": "energy"}[dim], i)

    def _ok(self, dim, i, fv):
        W = self._W
        if dim.endswith("reco"):
            c = W.eq(self._at("scintFit", i), 1)
            if dim == "energy_reco":
                c = W.and_(c, W.lt(0, self._at("energy", i)))
            return c if fv is None else W.and_(c, W.lt(W.abs(self._at("posx", i)), fv))
        c = W.eq(self._at("mc", i), 1)
        return c if fv is None else W.and_(c, W.lt(W.abs(self._at("mcPosx", i)), fv))


def target(W, dims, nd, fill, bipo, kw):
    """fills a new or an existing spectrum: (outcome, axes, content before, decays and raw events before)"""
    axes = [S.axis(W, j, name=d) for j, d in enumerate(dims)]
    opt = dict(kw)
    if bipo or (kw if W.sym else W.choose("bipo given", ["no", "False"]) == "False"):
        opt["bipo"] = bipo
    if (kw if W.sym else W.choose("spectrum", ["new", "existing"]) == "new"):
        q = W.call(lambda: fill("file", "name", S.config(W, axes), **opt))
        return q, axes, (lambda *m: 0), 0, 0, None, None
    sp, _, d = S.make(W, len(dims), axes=axes)
    s = S.Snap(W, sp)
    raw, dec = sp._raw_events, sp._num_decays
    q = W.call(lambda: fill("file", spectrum=sp, **opt))
    return q, axes, (lambda *m: W.at(d, *m)), raw, dec, sp, s


def inside(W, axes, vals):
    return W.and_(True, *[W.and_(W.le(a.low, v), W.lt(v, a.high)) if W.sym else a.low <= v < a.high for a, v in zip(axes, vals)])


def in_bin(W, axes, vals, m):
    x = lambda a, v: (v - a.low) / (a.high - a.low) * a.bins if not W.sym else W.div(v - a.low, a.high - a.low) * a.bins
    return W.and_(inside(W, axes, vals), *[W.eq(W.floor(x(a, v)), k) for a, v, k in zip(axes, vals, m)])


def check(W, g, nd, each, bipo):
    """each(f): the sum over the accepted events of f(values)"""
    q, axes, d0, raw, dec, sp, s = g
    W.check("returns the spectrum", q.ok and (sp is None or q.value is sp))
    if not q.ok:
        return
    sp = q.value
    W.check("decays grow by the number of entries", W.eq(sp._num_decays, dec + nd))
    W.check("coincidence flag", W.eq(sp._bipo, 1 if bipo else (s.bipo if s is not None else 0)))
    W.check("binning", W.and_(list(sp.get_config().get_pars()) == [a.name for a in axes],
                              *[W.and_(W.eq(sp.get_config().get_par(a.name)._low, a.low), W.eq(sp.get_config().get_par(a.name)._high, a.high),
                                       W.eq(sp.get_config().get_par(a.name)._bins, a.bins)) for a in axes]))
    if s is None:
        W.check("name", sp._name == "name")
    else:
        W.check("other settings unchanged", S.same_scaling(W, sp, s, but=("num_decays", "raw", "bipo")))
    shp = tuple(a.bins for a in axes)
    ok = W.isarray(sp._data) and len(W.shape(sp._data)) == len(shp)
    W.check("shape", ok and W.eq(tuple(W.shape(sp._data)), shp))
    if ok:
        W.check_all("content: one per accepted event inside the range", shp, lambda *m: W.eq(
            W.at(sp._data, *m), d0(*m) + each(lambda v: W.ite(in_bin(W, axes, v, m), 1, 0))))
    W.check("raw events: accepted events inside the range", W.eq(sp._raw_events, raw + each(lambda v: W.ite(inside(W, axes, v), 1, 0))))


def mk_root(dims, bipo, **kk):
    def h(W):
        f = Root(W)
        kw = {}
        if W.choose("fiducial radius", ["no", "yes"]) == "yes":
            kw["fv_radius"] = W.real("fv", gt=0, pool=[2., 4.5, 6.])
        fv = kw.get("fv_radius")
        W.override("echidna.core.fill_spectrum", "RAT", Thing())
        W.module("echidna.core.fill_spectrum").RAT.DU = Thing(DSReader=f)
        g = target(W, dims, f.n, W.module("echidna.core.fill_spectrum").fill_from_root, bipo, kw)
        mc = not any(d.endswith("reco") for d in dims)

        def each(fn):
            def ev(i, j):
                return W.ite(W.and_(*[f.ok(d, i, j, fv) for d in dims]), fn([f.value(d, i, j) for d in dims]), 0)

            def entry(i):
                c = W.at(f.count, i)
                t = ev(i, 0) if mc else W.sum(c, lambda j: ev(i, j))
                return W.ite(W.eq(c, 1), t, 0) if bipo else t
            return W.sum(f.n, entry)
        check(W, g, f.n, each, bipo)
    h.__name__ = "root_%s%s" % ("_".join(dims), "_bipo" if bipo else "")
    h.__doc__ = "RAT file, axes %s%s: one fill per accepted event" % (", ".join(dims), ", coincidence cut" if bipo else "")
    harness(H, contracts=["fill_from_root", "_root_mc" if all(not d.endswith("reco") for d in dims) else "_root_ev" if all(
        d.endswith("reco") for d in dims) else "_root_mix", "Spectra.fill", "Spectra.__init__"] + EX, assumes=A, cases=150, size=4, **kk)(h)


def mk_ntuple(dims, bipo, **kk):
    def h(W):
        f = Chain(W)
        kw = {}
        if W.choose("fiducial radius", ["no", "yes"]) == "yes":
            kw["fv_radius"] = W.real("fv", gt=0, pool=[2., 4.5, 6.])
        fv = kw.get("fv_radius")
        W.override("echidna.core.fill_spectrum", "TChain", lambda name: f)
        g = target(W, dims, f._n, W.module("echidna.core.fill_spectrum").fill_from_ntuple, bipo, kw)
        W.check("the file is read", f._added == ["file"])

        def each(fn):
            def entry(i):
                ok = W.and_(*[f._ok(d, i, fv) for d in dims])
                if bipo:        # the first of its events, and no second one follows
                    alone = W.lt(f._at("evIndex", W.ite(W.lt(i + 1, f._n), i + 1, i)), 1)
                    ok = W.and_(ok, W.eq(f._at("evIndex", i), 0), W.or_(W.eq(i + 1, f._n), alone))
                return W.ite(ok, fn([f._value(d, i) for d in dims]), 0)
            return W.sum(f._n, entry)
        check(W, g, f._n, each, bipo)
    h.__name__ = "ntuple_%s%s" % ("_".join(dims), "_bipo" if bipo else "")
    h.__doc__ = "ntuple, axes %s%s: one fill per accepted entry" % (", ".join(dims), ", coincidence cut" if bipo else "")
    harness(H, contracts=["fill_from_ntuple", "Spectra.fill", "Spectra.__init__"] + (["_bipo_ntuple"] if bipo else []) + EX, assumes=A,
            cases=400 if bipo else 150, size=8 if bipo else 4, **kk)(h)


for b in (False, True):
    for ds in (("energy_mc",), ("energy_reco",), ("energy_truth", "radial_mc"), ("energy_reco", "radial_reco"), ("energy_mc", "radial_reco")):
        mk_root(ds, b)
        mk_ntuple(ds, b, **(dict(sym=False, bound="up to 8 entries: the loop carries a record of the previous entry, which the loop rule "
                                 "does not cover") if b else {}))


@harness(H, contracts=["fill_from_root", "fill_from_ntuple"], assumes=A, cases=40)
def refused(W):
    """a new spectrum needs a name and a configuration; axes of unknown kind are refused with IndexError; nothing is filled"""
    fs = W.module("echidna.core.fill_spectrum")
    form = W.choose("file", ["root", "ntuple"])
    if form == "root":
        f = Root(W)
        W.override("echidna.core.fill_spectrum", "RAT", Thing())
        fs.RAT.DU = Thing(DSReader=f)
        fill = fs.fill_from_root
    else:
        f = Chain(W)
        W.override("echidna.core.fill_spectrum", "TChain", lambda name: f)
        fill = fs.fill_from_ntuple
    cfg = S.config(W, [S.axis(W, 0, name="energy_mc")])
    W.check("no name", W.call(lambda: fill("file", config=cfg)).raised("ValueError"))
    W.check("no configuration", W.call(lambda: fill("file", "name")).raised("ValueError"))
    sp, axes, d = S.make(W, 1, axes=[S.axis(W, 0, name=W.choose("axis", ["energy", "foo_bar", "energy_MC"]))], prefix="e")
    s = S.Snap(W, sp)
    W.check("unknown axis", W.call(lambda: fill("file", spectrum=sp)).raised("IndexError"))
    S.check_same_data(W, "content unchanged", sp._data, s)
    W.check("raw events unchanged", W.same(sp._raw_events, s.raw))
