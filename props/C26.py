"""C26: event extractors"""
from pyvc.runner import harness
H = []
ID = "C26"
A = ["events are stand-ins for RAT objects and ROOT chain entries: they deliver arbitrary positions, energies, counts and flags; a position is "
     "only asked for where the event has one (a triggered event has a reconstructed position when that position is cut on)",
     "the fiducial and outer radius, when given, are positive"]
C = ["function_factory", "Extractor.__init__"]
CLS = {"energy_mc": "EnergyExtractMC", "energy_reco": "EnergyExtractReco", "energy_truth": "EnergyExtractTruth",
       "radial_mc": "RadialExtractMC", "radial_reco": "RadialExtractReco", "radial3_mc": "Radial3ExtractMC",
       "radial3_reco": "Radial3ExtractReco", "zradial3_mc": "ZRadial3ExtractMC", "zradial3_reco": "ZRadial3ExtractReco"}
XS = [0., 1., -1., 3., 4., -5.5, 2000., -12., 5., 6000.]
RS = [5., 6., 1., 3500., 5.5, 6000.1, 13.]


class Vec(object):
    def __init__(self, W, x, y, z):
        self.x, self.y, self.z = x, y, z
        self.mag = W.sqrt(x * x + y * y + z * z)

    def Mag(self):
        return self.mag

    def __getitem__(self, i):
        return (self.x, self.y, self.z)[i]

    def X(self):
        return self.x

    def Y(self):
        return self.y

    def Z(self):
        return self.z


class Thing(object):
    """answers Name() with the value given for Name; Name(i) with the i-th where a list is given"""
    def __init__(self, **k):
        self.__dict__["_k"] = k
        for n, v in k.items():
            self.__dict__[n] = (lambda v: lambda *i: v[i[0]] if i else v)(v)


class Entry(object):
    pass


def vec(W, n):
    return Vec(W, W.real(n + "x", pool=XS), W.real(n + "y", pool=XS), W.real(n + "z", pool=XS))


def event(W, dim, form):
    """the event as RAT objects or as ntuple entry"""
    e = Entry()
    e.mcpos, e.pos = vec(W, "mc"), vec(W, "reco")
    e.quenched, e.truth, e.energy = [W.real(x, pool=XS) for x in ("quenched", "truth", "energy")]
    if form == "ntuple":
        n = e.entry = Entry()
        n.mc, n.scintFit = W.int("entry mc", pool=[1, 0, 1]), W.int("entry scintFit", pool=[1, 0, 1])
        n.mcPosx, n.mcPosy, n.mcPosz = e.mcpos.x, e.mcpos.y, e.mcpos.z
        n.posx, n.posy, n.posz = e.pos.x, e.pos.y, e.pos.z
        n.energy, n.mcEdep, n.mcEdepQuenched = e.energy, e.truth, e.quenched
        return e
    e.parts, e.evs = W.int("particles", lo=0, pool=[1, 0, 1, 2]), W.int("evs", lo=0, pool=[1, 0, 1, 2])
    e.exists, e.cE, e.vE = W.bool("vertex exists"), W.bool("contains energy"), W.bool("valid energy")
    if dim in ("energy_reco", "radial_reco"):
        e.cP, e.vP = W.bool("contains position"), W.bool("valid position")
    else:       # either validity may be what the code asks for
        e.cP, e.vP = e.cE, e.vE
    fit = Thing(ContainsEnergy=e.cE, ValidEnergy=e.vE, ContainsPosition=e.cP, ValidPosition=e.vP, GetEnergy=e.energy, GetPosition=e.pos)
    e.ev = Thing(DefaultFitVertexExists=e.exists, GetDefaultFitVertex=fit)
    other = Thing(GetPosition=Vec(W, W.num("77"), W.num("0"), W.num("-1")))
    e.mc = Thing(GetMCParticle=[Thing(GetPosition=e.mcpos), other], GetMCParticleCount=e.parts, GetScintQuenchedEnergyDeposit=e.quenched,
                 GetScintEnergyDeposit=e.truth)
    e.ds = Thing(GetMC=e.mc, GetEVCount=e.evs, GetEV=[e.ev, Thing(GetDefaultFitVertex=other)])
    return e


def make(W, dim):
    """an extractor from the factory or the class, with its options"""
    m = W.module("echidna.core.dsextract")
    reco = dim.endswith("reco")
    opt = {}
    fv = outer = None
    external = False
    if W.choose("fiducial radius", ["no", "yes"]) == "yes":
        fv = opt["fv_radius"] = W.real("fv", gt=0, pool=RS)
    if W.choose("outer radius", ["no", "yes"]) == "yes":
        outer = W.real("outer", gt=0, pool=RS)
        if "radial3" in dim:
            opt["outer_radius"] = outer
    if dim.startswith("energy") or reco:
        x = W.choose("external", ["no", "yes", "False"])
        if x != "no":
            external = opt["external"] = x == "yes"
    how = W.choose("made by", ["factory", "class", "class, position of the other kind"])
    other = False
    if how == "factory":
        if outer is not None:
            opt["outer_radius"] = outer     # ignored where it has no meaning
        q = W.call(lambda: m.function_factory(dim, **opt))
    else:
        other = how != "class"
        if other and not (external and reco):
            opt["mc_pos" if reco else "reco_pos"] = True
        elif other:
            opt["mc_pos"] = True
        q = W.call(lambda: getattr(m, CLS[dim])(**opt))
    if external and reco and other:
        W.check("Monte Carlo position for an external is refused", q.raised("ValueError"))
        return None
    W.check("made", q.ok)
    if not q.ok:
        return None
    W.check("kind and name", W.and_(type(q.value) is getattr(m, CLS[dim]) if not W.sym else True, q.value._name == dim))
    if outer is None:
        outer = W.module("echidna.calc.constants")._av_radius
    return q.value, fv, outer, external, (not other) if reco else (other or external)


def value(W, dim, e):
    kind = dim.split("_")
    if kind[0] == "energy":
        return {"mc": e.quenched, "truth": e.truth, "reco": e.energy}[kind[1]]
    p = e.pos if kind[1] == "reco" else e.mcpos
    if kind[0] == "radial":
        return p.mag

    def v(outer):
        d = W.div(p.mag, outer)
        d = d * d * d
        return W.ite(W.lt(p.z, 0), -d, d) if kind[0] == "zradial3" else d
    return v


def get(W, x, dim, e, outer, f, *a):
    q = W.call(lambda: f(*a))
    v = value(W, dim, e)
    v = v if not callable(v) else v(outer)
    W.check("value", q.ok and W.eq(q.value, v))


def mk(dim):
    cls = CLS[dim]
    reco = dim.endswith("reco")

    def root(W):
        g = make(W, dim)
        if g is None:
            return
        x, fv, outer, external, by_reco = g
        e = event(W, dim, "root")
        pos = e.pos if by_reco else e.mcpos
        inside = True if fv is None else W.lt(pos.mag, fv)
        a = e.ev if reco else e.mc
        if reco:
            W.require(W.and_(W.le(1, e.evs), W.le(1, e.parts)))
            ok = W.and_(e.exists, e.cE, e.vE) if dim != "radial_reco" else W.and_(e.exists, e.cP, e.vP)
            ok = W.and_(ok, inside)
        else:
            ok = W.lt(0, e.parts)
            if external:
                ok = W.and_(ok, W.lt(0, e.evs))
            if by_reco and fv is not None:
                W.require(W.le(e.evs, 1))
                ok = W.and_(ok, W.lt(0, e.evs), inside)
            else:
                ok = W.and_(ok, inside)
        q = W.call(lambda: x.get_valid_root(a, e.ds))
        W.check("accepted exactly when valid and inside", q.ok and W.eq(W.ite(q.value, 1, 0), W.ite(ok, 1, 0)))
        if reco:
            W.require(e.exists)
        else:
            W.require(W.lt(0, e.parts))
        get(W, x, dim, e, outer, x.get_value_root, a)
    root.__name__ = dim + "_root"
    root.__doc__ = "%s: events of RAT files" % dim
    harness(H, contracts=C + [cls + "." + f for f in ("__init__", "get_valid_root", "fv_cut_root", "get_value_root")], assumes=A,
            cases=500)(root)

    def ntuple(W):
        g = make(W, dim)
        if g is None:
            return
        x, fv, outer, external, by_reco = g
        e = event(W, dim, "ntuple")
        n = e.entry
        pos = e.pos if by_reco else e.mcpos
        inside = True if fv is None else W.lt(pos.mag, fv)
        fit = W.eq(n.scintFit, 1)
        if reco:
            ok = W.and_(fit, inside)
            if dim == "energy_reco":
                ok = W.and_(ok, W.lt(0, n.energy))
        else:
            ok = W.and_(W.eq(n.mc, 1), inside)
            if external or (by_reco and fv is not None):
                ok = W.and_(ok, fit)
        q = W.call(lambda: x.get_valid_ntuple(n))
        W.check("accepted exactly when valid and inside", q.ok and W.eq(W.ite(q.value, 1, 0), W.ite(ok, 1, 0)))
        get(W, x, dim, e, outer, x.get_value_ntuple, n)
    ntuple.__name__ = dim + "_ntuple"
    ntuple.__doc__ = "%s: entries of ntuples" % dim
    harness(H, contracts=C + [cls + "." + f for f in ("__init__", "get_valid_ntuple", "fv_cut_ntuple", "get_value_ntuple")], assumes=A,
            cases=500)(ntuple)


for d in CLS:
    mk(d)


@harness(H, contracts=["function_factory"] + [c + ".__init__" for c in CLS.values()], assumes=A, cases=60)
def refused(W):
    """unknown names are refused with IndexError, Monte Carlo positions of externals with ValueError"""
    m = W.module("echidna.core.dsextract")
    for n in ("energy", "", "nosuch_mc", "radial_truth", "energy_mc "):
        q = W.call(lambda: m.function_factory(n))
        W.check("unknown name", q.raised("IndexError"))
    fv = W.real("fv", gt=0, pool=RS)
    for n in ("radial_mc", "radial3_mc", "zradial3_mc"):
        q = W.call(lambda: m.function_factory(n, external=True, fv_radius=fv))
        W.check("true radius of an external: " + n, q.raised("ValueError"))


@harness(H, contracts=["%s.fv_cut_root" % c for d, c in CLS.items() if not d.endswith("reco")], assumes=A, cases=60)
def several_triggers(W):
    """a reconstructed position is ambiguous for a Monte Carlo event with several triggers: ValueError"""
    m = W.module("echidna.core.dsextract")
    fv = W.real("fv", gt=0, pool=RS)
    e = event(W, "energy_mc", "root")
    W.require(W.and_(W.le(2, e.evs), W.le(1, e.parts)))
    for dim in CLS:
        if dim.endswith("reco"):
            continue
        x = getattr(m, CLS[dim])(fv_radius=fv, reco_pos=True)
        q = W.call(lambda: x.get_valid_root(e.mc, e.ds))
        W.check("refused: " + dim, q.raised("ValueError"))
