"""C25: decay conversions"""
from pyvc.runner import harness
H = []
ID = "C25"
N = ["__init__", "get_n_atoms", "half_life_to_activity", "activity_to_half_life", "eff_mass_to_half_life", "half_life_to_eff_mass",
     "activity_to_counts", "counts_to_activity", "counts_to_eff_mass", "eff_mass_to_counts", "half_life_to_counts",
     "counts_to_half_life"]
C = ["DBIsotope." + x for x in N]


def isotope(W, rad=True):
    """an isotope with any parameters, or the module's defaults for loading, radius and density"""
    D = W.module("echidna.calc.decay")
    c = D.const
    iso = {"wi": W.real("atm_weight_iso", gt=0, pool=[129.906229, 135.907219, 1., 150.5]),
           "wn": W.real("atm_weight_nat", gt=0, pool=[127.6, 134., 2., 144.25]),
           "ab": W.real("abundance", lo=0, hi=1, pool=[.3408, 1., .9, .056]),
           "G": W.real("phase_space", gt=0, pool=[3.69e-14, 1433.e-17, 6.02e-16]),
           "M": W.real("matrix_element", gt=0, pool=[4.03, 3.33, 2.205, 1.e-3])}
    kw = {}
    iso["loading"], iso["radius"], iso["density"] = c._loading, c._av_radius, c._scint_density
    what = W.choose("given", ["nothing", "all", "loading", "radius", "density"])
    if what in ("all", "loading"):
        iso["loading"] = kw["loading"] = W.real("loading", lo=0, hi=1, pool=[0., .003, .0244, 1.])
    if what in ("all", "radius"):
        iso["radius"] = kw["outer_radius"] = W.real("outer_radius", gt=0, pool=[1540., 5997., 1., .5])
    if what in ("all", "density"):
        iso["density"] = kw["scint_density"] = W.real("scint_density", lo=0, pool=[756.28e-9, 862.8e-9, 0., 1.])
    q = W.call(lambda: D.DBIsotope("X", iso["wi"], iso["wn"], iso["ab"], iso["G"], iso["M"], **kw))
    W.check("isotope built", q.ok)
    return q.value if q.ok else None, iso, c


def spec_atoms(W, iso, c, loading=None, density=None, target=None, scint=None, radius=None):
    """N = (target mass) N_A / (A g/mol), target mass = loading * abundance * (A_iso/A_nat) * density * 4/3 pi r^3"""
    if target is None:
        if scint is None:
            r = iso["radius"] if radius is None else radius
            scint = (iso["density"] if density is None else density) * W.div(4 * W.pi() * r * r * r, W.num("3"))
        target = W.div(iso["ab"] * iso["wi"], iso["wn"]) * (iso["loading"] if loading is None else loading) * scint
    return W.div(target * c._n_avagadro * 1000, iso["wi"])


@harness(H, contracts=C[:2])
def atoms(W):
    """number of atoms; explicit arguments take precedence over stored values, target mass over scintillator mass over density"""
    d, iso, c = isotope(W)
    if d is None:
        return
    kw, sp = {}, {}
    for k, s, lo, hi, pool in (("loading", "loading", 0, 1, [0., .003, 1.]), ("scint_density", "density", 0, None, [0., 7.5e-7, 1.]),
                               ("target_mass", "target", 0, None, [0., 125., 800.]), ("scint_mass", "scint", 0, None, [0., 780000., 10.]),
                               ("outer_radius", "radius", None, None, [1., 1200., 3500.])):
        if W.choose(k, [False, True]):
            kw[k] = sp[s] = W.real("arg_" + k, lo=lo, hi=hi, gt=0 if lo is None else None, pool=pool)
    q = W.call(lambda: d.get_n_atoms(**kw))
    W.check("number of atoms", q.ok and W.eq(q.value, spec_atoms(W, iso, c, **sp)))


def ln2(W):
    return W.log(W.num("2"))


def args(W, d, iso, c):
    """number of atoms given or from the isotope; livetime given or 5 years"""
    kw, n, t = {}, spec_atoms(W, iso, c), 5
    if W.choose("atoms given", [False, True]):
        n = kw["n_atoms"] = W.real("n_atoms", gt=0, pool=[1e26, 7.4694e26, 3., 1e27])
    else:
        W.require(W.lt(0, n))
    if W.choose("livetime given", [False, True]):
        t = kw["livetime"] = W.real("livetime", gt=0, pool=[1., 5., .3, 112.3])
    return kw, n, t


HL = [1e25, 5.17e25, 1e20, 7.]


@harness(H, contracts=C)
def formulas(W):
    """each conversion against its formula"""
    d, iso, c = isotope(W)
    if d is None:
        return
    kw, n, t = args(W, d, iso, c)
    T = W.real("half_life", gt=0, pool=HL)
    m = W.real("eff_mass", gt=0, pool=[.0999, .05, 1., 12.])
    a = W.real("activity", gt=0, pool=[50.4, 1., .001, 1e5])
    s = W.real("counts", gt=0, pool=[31.2, 1., 200., 1e5])
    me2 = c._electron_mass * c._electron_mass
    gm = iso["G"] * iso["M"] * iso["M"]
    na = dict((k, v) for k, v in kw.items() if k == "n_atoms")
    lt = dict((k, v) for k, v in kw.items() if k == "livetime")

    def chk(name, f, spec):
        q = W.call(f)
        W.check(name, q.ok and W.eq(q.value, spec()))
    chk("activity = ln2 N / T", lambda: d.half_life_to_activity(T, **na), lambda: W.div(ln2(W) * n, T))
    chk("T = ln2 N / activity", lambda: d.activity_to_half_life(a, **na), lambda: W.div(ln2(W) * n, a))
    chk("1/T = G M^2 (m/m_e)^2", lambda: d.eff_mass_to_half_life(m), lambda: W.div(me2, gm * m * m))
    chk("counts = activity * livetime", lambda: d.activity_to_counts(a, **lt), lambda: a * t)
    chk("activity = counts / livetime", lambda: d.counts_to_activity(s, **lt), lambda: W.div(s, t))
    chk("counts = ln2 N livetime / T", lambda: d.half_life_to_counts(T, **kw), lambda: W.div(ln2(W) * n * t, T))
    chk("T = ln2 N livetime / counts", lambda: d.counts_to_half_life(s, **kw), lambda: W.div(ln2(W) * n * t, s))
    chk("counts from the effective mass", lambda: d.eff_mass_to_counts(m, **kw),
        lambda: W.div(ln2(W) * n * t * gm * m * m, me2))
    q = W.call(lambda: d.half_life_to_eff_mass(T))
    W.check("m from 1/T = G M^2 (m/m_e)^2", q.ok and W.and_(W.lt(0, q.value), W.eq(q.value * q.value * gm * T, me2)))
    q = W.call(lambda: d.counts_to_eff_mass(s, **kw))
    W.check("m from the counts", q.ok and W.and_(W.lt(0, q.value), W.eq(q.value * q.value * gm * ln2(W) * n * t, me2 * s)))


@harness(H, contracts=C)
def inverse(W):
    """each conversion followed by its inverse gives the starting value"""
    d, iso, c = isotope(W)
    if d is None:
        return
    kw, n, t = args(W, d, iso, c)
    T = W.real("half_life", gt=0, pool=HL)
    m = W.real("eff_mass", gt=0, pool=[.0999, .05, 1., 12.])
    a = W.real("activity", gt=0, pool=[50.4, 1., .001, 1e5])
    s = W.real("counts", gt=0, pool=[31.2, 1., 200., 1e5])
    na = dict((k, v) for k, v in kw.items() if k == "n_atoms")
    lt = dict((k, v) for k, v in kw.items() if k == "livetime")
    for name, f, g, x, k in (
            ("half-life, activity", d.half_life_to_activity, d.activity_to_half_life, T, na),
            ("activity, half-life", d.activity_to_half_life, d.half_life_to_activity, a, na),
            ("half-life, effective mass", d.half_life_to_eff_mass, d.eff_mass_to_half_life, T, {}),
            ("effective mass, half-life", d.eff_mass_to_half_life, d.half_life_to_eff_mass, m, {}),
            ("activity, counts", d.activity_to_counts, d.counts_to_activity, a, lt),
            ("counts, activity", d.counts_to_activity, d.activity_to_counts, s, lt),
            ("counts, half-life", d.counts_to_half_life, d.half_life_to_counts, s, kw),
            ("half-life, counts", d.half_life_to_counts, d.counts_to_half_life, T, kw),
            ("counts, effective mass", d.counts_to_eff_mass, d.eff_mass_to_counts, s, kw),
            ("effective mass, counts", d.eff_mass_to_counts, d.counts_to_eff_mass, m, kw)):
        q = W.call(lambda: g(f(x, **k), **k))
        W.check(name, q.ok and W.eq(q.value, x))


@harness(H, contracts=C)
def refused(W):
    """abundances and loadings outside 0..1, non-positive radius, effective mass and livetime: ValueError"""
    D = W.module("echidna.calc.decay")
    out = W.real("outside", pool=[-1., -1e-9, 1.5, 1.0000001, 100.])
    W.require(W.or_(W.lt(out, 0), W.lt(1, out)))
    neg = W.real("not_positive", hi=0, pool=[0., -1., -1e-12, -5997.])
    ab = W.real("abundance", lo=0, hi=1, pool=[0., .3408, 1.])
    o = [W.real(x, gt=0, pool=[1., 130., 4.]) for x in ("iso", "nat", "G", "M")]
    mk = lambda ab, **k: W.call(lambda: D.DBIsotope("X", o[0], o[1], ab, o[2], o[3], **k))
    W.check("abundance", mk(out).raised("ValueError"))
    W.check("loading", mk(ab, loading=out).raised("ValueError"))
    W.check("outer radius", mk(ab, outer_radius=neg).raised("ValueError"))
    q = mk(ab)
    W.check("any abundance from 0 to 1 is accepted", q.ok)
    if not q.ok:
        return
    d = q.value
    good = W.real("good", gt=0, pool=[1., 1e25, 3.])
    W.check("loading of get_n_atoms", W.call(lambda: d.get_n_atoms(loading=out)).raised("ValueError"))
    W.check("outer radius of get_n_atoms", W.call(lambda: d.get_n_atoms(outer_radius=neg)).raised("ValueError"))
    W.check("effective mass to half-life", W.call(lambda: d.eff_mass_to_half_life(neg)).raised("ValueError"))
    W.check("effective mass to counts", W.call(lambda: d.eff_mass_to_counts(neg)).raised("ValueError"))
    for f in (d.activity_to_counts, d.counts_to_activity, d.counts_to_eff_mass, d.eff_mass_to_counts, d.half_life_to_counts,
              d.counts_to_half_life):
        W.check("livetime", W.call(lambda: f(good, livetime=neg)).raised("ValueError"))
