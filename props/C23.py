"""C23: dump and load of configurations"""
import itertools
from collections import OrderedDict
from pyvc.runner import harness
H = []
ID = "C23"
A = ["names are drawn from fixed lists and the number of parameters is enumerated; numbers are arbitrary",
     "spectral rates have no dimension (the dictionary form has no field for it)"]
C = ["SpectraConfig.dump", "SpectraConfig.load", "SpectraFitConfig.dump", "SpectraFitConfig.load", "GlobalFitConfig.dump",
     "GlobalFitConfig.load", "Parameter.to_dict", "FitParameter.to_dict"]
FIELDS = ("_prior", "_sigma", "_low", "_high", "_bins", "_logscale", "_base", "_logscale_deviation", "_dimension",
          "_current_value", "_best_fit", "_penalty_term", "_name", "_type")


def orders(W, names):
    ps = [list(p) for p in itertools.permutations(names)]
    return ps if not W.sym or len(ps) <= 6 else [ps[0], ps[-1], ps[9]]


def fit_par(W, name, full):
    P = W.module("echidna.core.parameter")
    kw = {}
    sc = W.choose("scale of " + name, ["linear", "log", "log base", "deviation", "off"] if full else ["linear", "log base"])
    if sc == "log":
        kw["logscale"] = True
    elif sc == "log base":
        kw.update(logscale=True, base=W.real("base_" + name, gt=0))
    elif sc == "deviation":
        kw["logscale_deviation"] = True
    elif sc == "off":
        kw.update(logscale=False, logscale_deviation=False)
    st = W.choose("state of " + name, ["none", "current", "all"] if full else ["all"])
    if st != "none":
        kw["current_value"] = W.real("current_" + name)
    if st == "all":
        kw["best_fit"] = W.real("best_" + name)
        kw["penalty_term"] = W.real("penalty_" + name)
    sigma = W.real("sigma_" + name) if W.choose("sigma of " + name, [True, False] if full else [True]) else None
    a = (W.real("prior_" + name), sigma, W.real("low_" + name), W.real("high_" + name), W.dim("bins_" + name))
    for d, k, cls in (("resolution", None, P.ResolutionParameter), ("resolution_ly", None, P.ResolutionParameter),
                      ("scale", None, P.ScaleParameter), ("shift", None, P.ShiftParameter)):
        if name.endswith("_" + d):
            return cls(name, *a, name[:-len(d) - 1], **kw)
    return P.RateParameter(name, *a, **kw)


def same_value(W, a, b):
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return type(a) == type(b) and a == b
    return W.same(a, b)


def compare(W, what, p, q):
    W.check(what + ": kind of parameter", type(p) is type(q))
    for f in FIELDS:
        W.check(what + ": " + f[1:], hasattr(q, f) and same_value(W, getattr(p, f), getattr(q, f)))


def compare_cfg(W, a, r, name, want, typ):
    W.check("loaded", r.ok)
    if not r.ok:
        return
    b = r.value
    W.check("a new configuration of the same kind", b is not a and type(b) is type(a))
    W.check("name", b.get_name() == name)
    W.check("configuration type", b._type == typ)
    names = [str(x) for x in b.get_pars()]
    W.check("same parameters in the same order", names == want)
    if names == want:
        for x in want:
            yield x, a.get_par(x), b.get_par(x)


@harness(H, contracts=C, assumes=A)
def spectra(W):
    """spectral configuration: names, order, bounds and bins"""
    M = W.module("echidna.core.config")
    P = W.module("echidna.core.parameter")
    names = W.choose("order", orders(W, ["energy_mc", "radial_reco", "zed_pos_truth", "cos_angle_mc"][:W.choose("n", [1, 2, 3, 4])]))
    cfg = M.SpectraConfig("old", OrderedDict((x, P.SpectraParameter(x, W.real("low_" + x), W.real("high_" + x), W.dim("bins_" + x)))
                                             for x in names))
    d = W.call(lambda: cfg.dump())
    W.check("dumped", d.ok)
    if not d.ok:
        return
    nm = W.choose("name", ["new", None])
    r = W.call(lambda: M.SpectraConfig.load(d.value, name=nm)) if nm else W.call(lambda: M.SpectraConfig.load(d.value))
    for x, p, q in compare_cfg(W, cfg, r, nm or "config", names, "spectra"):
        W.check("axis: kind, name", type(p) is type(q) and q._name == x)
        for f in ("_low", "_high", "_bins"):
            W.check("axis: " + f[1:], W.same(getattr(p, f), getattr(q, f)))


def spectra_fit(full):
    def h(W):
        M = W.module("echidna.core.config")
        n = 1 if full else W.choose("n", [2, 3])
        names = W.choose("order", orders(W, ["Te_rate", "rate", "U_chain_rate"][:n]))
        cfg = M.SpectraFitConfig("old", OrderedDict((x, fit_par(W, x, full)) for x in names), "spec")
        d = W.call(lambda: cfg.dump())
        W.check("dumped", d.ok)
        if not d.ok:
            return
        nm = W.choose("name", ["new", None])
        r = W.call(lambda: M.SpectraFitConfig.load(d.value, "spec", name=nm)) if nm else \
            W.call(lambda: M.SpectraFitConfig.load(d.value, "spec"))
        if r.ok:
            W.check("name of the spectrum", r.value._spectra_name == "spec")
        for x, p, q in compare_cfg(W, cfg, r, nm or "spectral_fit_config", names, "spectra_fit"):
            compare(W, "rate", p, q)
    h.__name__ = "spectra_fit_%s" % ("one_any_state" if full else "several")
    h.__doc__ = "per-spectrum fit configuration: every field of every rate"
    return h


def global_fit(full):
    def h(W):
        M = W.module("echidna.core.config")
        if full:
            gl, sp = W.choose("parameters", [(["energy_resolution"], []), (["energy_resolution_ly"], []), (["zed_pos_scale"], []),
                                             (["radial_shift"], []), ([], ["Te_rate"])])
        else:
            gl = W.choose("global", [["energy_resolution", "energy_shift", "radial_scale"], ["zed_pos_scale", "energy_resolution_ly"],
                                     ["radial_shift", "radial_resolution", "energy_scale"], ["energy_scale"], []])
            sp = W.choose("spectral", [["Te_rate", "U_rate"], ["rate"], []])
        want = gl + sp
        pars = [(x, fit_par(W, x, full), "global" if x in gl else "spectra") for x in want]
        cfg = M.GlobalFitConfig("old", OrderedDict())
        # added with global and per-spectrum parameters in any order
        for x, p, k in (pars if W.choose("global first", [True, False]) else pars[len(gl):] + pars[:len(gl)]):
            cfg.add_par(p, k)
        d = W.call(lambda: cfg.dump())
        W.check("dumped", d.ok and isinstance(d.value, tuple) and len(d.value) == 2)
        if not d.ok:
            return
        g, s = d.value
        nm = W.choose("name", ["new", None])
        kw = {"name": nm} if nm else {}
        r = W.call(lambda: M.GlobalFitConfig.load(g, spectral_config=s, **kw))
        for x, p, q in compare_cfg(W, cfg, r, nm or "global_fit_config", want, "global_fit"):
            compare(W, "parameter", p, q)
        if r.ok:
            b = r.value
            W.check("global stay global", [p._name for p in b.get_global_pars()] == gl)
            W.check("per-spectrum stay per-spectrum", [p._name for p in b.get_spectra_pars()] == sp)
        r = W.call(lambda: M.GlobalFitConfig.load(g, **kw))
        W.check("global part alone", r.ok and [str(x) for x in r.value.get_pars()] == gl)
        W.check("global part alone: name", r.ok and r.value.get_name() == (nm or "global_fit_config"))
    h.__name__ = "global_fit_%s" % ("one_any_state" if full else "several")
    h.__doc__ = "global fit configuration: every field of every parameter; global and per-spectrum ones stay what they are"
    return h


for full in (True, False):
    harness(H, contracts=C, assumes=A)(spectra_fit(full))
    harness(H, contracts=C, assumes=A)(global_fit(full))


@harness(H, contracts=C, assumes=A)
def refused(W):
    """a dictionary without the expected key: KeyError; an unknown fit parameter: IndexError"""
    M = W.module("echidna.core.config")
    body = dict(prior=W.real("prior"), sigma=W.real("sigma"), low=W.real("low"), high=W.real("high"), bins=W.dim("bins"))
    bad = W.choose("key", ["", "Parameters", "fit_parameters", "global_fit_parameter", "spectral_fit_parameters "])
    d = {bad: {"energy_mc": body, "x_rate": body}} if W.choose("filled", [True, False]) else {}
    for nm, f in (("spectral", lambda: M.SpectraConfig.load(d)), ("per-spectrum", lambda: M.SpectraFitConfig.load(d, "s")),
                  ("global", lambda: M.GlobalFitConfig.load(d)),
                  ("global, spectral part", lambda: M.GlobalFitConfig.load({"global_fit_parameters": {}}, d))):
        W.check(nm + " configuration raises KeyError", W.call(f).raised("KeyError"))
    x = W.choose("systematic", ["smear", "Resolution", "rat", "res", ""])
    q = W.call(lambda: M.GlobalFitConfig.load({"global_fit_parameters": {"energy": {x: body}}}))
    W.check("unknown global parameter raises IndexError", q.raised("IndexError"))
    q = W.call(lambda: M.SpectraFitConfig.load({"spectral_fit_parameters": {x: body}}, "s"))
    W.check("unknown per-spectrum parameter raises IndexError", q.raised("IndexError"))
    q = W.call(lambda: M.GlobalFitConfig.load({"global_fit_parameters": {}}, {"spectral_fit_parameters": {x: body}}))
    W.check("unknown per-spectrum parameter of a global configuration raises IndexError", q.raised("IndexError"))
