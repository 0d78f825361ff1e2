"""C24: configuration look-ups agree with the order of the parameters"""
import itertools
from collections import OrderedDict
from pyvc.runner import harness
H = []
ID = "C24"
A = ["names are drawn from fixed lists and the number of parameters is enumerated 0..4; bounds and numbers of bins are arbitrary"]
SPECTRA = ["energy_mc", "radial_reco", "zed_pos_truth", "cos_angle_mc"]
DIMS = {"energy_mc": ("energy", "mc"), "radial_reco": ("radial", "reco"), "zed_pos_truth": ("zed_pos", "truth"),
        "cos_angle_mc": ("cos_angle", "mc"), "energy_quench": ("energy", "quench"), "radial3_mc": ("radial3", "mc"),
        "a_b_c_d": ("a_b_c", "d")}
GLOBAL = ["energy_resolution", "radial_shift", "energy_scale", "zed_pos_scale"]
C = ["Config.get_index", "Config.get_par", "Config.get_par_by_index", "Config.get_pars", "Config.get_shape", "Config.add_par"]
CG = C[:1] + C[3:5] + ["GlobalFitConfig." + x for x in ("add_par", "add_config", "get_par", "get_global_pars", "get_spectra_pars")]


def orders(W, names):
    ps = [list(p) for p in itertools.permutations(names)]
    if W.sym and len(ps) > 6:
        ps = [ps[0], ps[-1], ps[7], ps[9], ps[16]]
    return ps


def spar(W, name):
    return W.module("echidna.core.parameter").SpectraParameter(name, W.real("low_" + name), W.real("high_" + name),
                                                               W.dim("bins_" + name))


def fpar(W, kind, name, dim=None, tag=""):
    P = W.module("echidna.core.parameter")
    a = (W.real(tag + "prior_" + name), W.real(tag + "sigma_" + name), W.real(tag + "low_" + name),
         W.real(tag + "high_" + name), W.dim(tag + "bins_" + name))
    if kind == "rate":
        return P.RateParameter(name, *a)
    return {"resolution": P.ResolutionParameter, "scale": P.ScaleParameter, "shift": P.ShiftParameter}[kind](name, *a, dim)


def gpar(W, name, tag=""):
    dim, kind = name.rsplit("_", 1)
    return fpar(W, kind, name, dim, tag)


def lookups(W, cfg, names, pars):
    """names: expected order; pars: {name: object}"""
    q = W.call(lambda: list(cfg.get_pars()))
    W.check("list of parameters in insertion order", q.ok and [str(x) for x in q.value] == names)
    q = W.call(lambda: cfg.get_shape())
    W.check("shape holds the numbers of bins in that order", q.ok and isinstance(q.value, tuple) and
            len(q.value) == len(names) and W.and_(True, *[W.eq(a, pars[n]._bins) for a, n in zip(q.value, names)]))
    for i, n in enumerate(names):
        q = W.call(lambda: cfg.get_index(n))
        W.check("index of a name is its position", q.ok and W.eq(q.value, i))
        q = W.call(lambda: cfg.get_par(n))
        W.check("look-up by name", q.ok and q.value is pars[n])
        q = W.call(lambda: cfg.get_par_by_index(i))
        W.check("look-up by position", q.ok and q.value is pars[n])
    for n in ("unknown", "energy", "energy_mc_", "", "Energy_mc"):
        q = W.call(lambda: cfg.get_index(n))
        W.check("index of an unknown name raises IndexError", q.raised("IndexError"))
        q = W.call(lambda: cfg.get_par(n))
        W.check("look-up of an unknown name is refused", q.raised("KeyError", "IndexError"))
    q = W.call(lambda: cfg.get_par_by_index(len(names)))
    W.check("look-up beyond the last position is refused", q.raised("IndexError"))


def spectra_cfg(kind):
    def h(W):
        CF = W.module("echidna.core.config")
        n = W.choose("parameters", [0, 1, 2, 3, 4])
        names = W.choose("order", orders(W, (SPECTRA if kind == "spectra" else ["Te_rate", "U_rate", "Th_rate", "rate"])[:n]))
        mk = (lambda x: spar(W, x)) if kind == "spectra" else (lambda x: fpar(W, "rate", x))
        pars = dict((x, mk(x)) for x in names)
        k = W.choose("added later", list(range(n + 1)))      # the rest is given to the constructor
        first = OrderedDict((x, pars[x]) for x in names[:n - k])
        cfg = CF.SpectraConfig("cfg", first) if kind == "spectra" else CF.SpectraFitConfig("cfg", first, "spec")
        for x in names[n - k:]:
            q = W.call(lambda: cfg.add_par(pars[x]))
            W.check("parameter added", q.ok)
        W.check("name", cfg.get_name() == "cfg")
        lookups(W, cfg, names, pars)
        if n:       # an existing name: replaced in place
            x = W.choose("replaced", names)
            new = mk(x)
            q = W.call(lambda: cfg.add_par(new))
            pars[x] = new
            W.check("parameter replaced", q.ok)
            lookups(W, cfg, names, pars)
    h.__name__ = "%s_config" % kind
    h.__doc__ = "list, look-ups, index and shape describe the same parameters in insertion order; adding keeps the others"
    return h


for k in ("spectra", "spectra_fit"):
    harness(H, contracts=C, assumes=A)(spectra_cfg(k))


@harness(H, contracts=C + ["SpectraConfig.get_dims", "SpectraConfig.get_dim", "SpectraConfig.get_dim_type"], assumes=A)
def axis_names(W):
    """dimension and type are the parts before and after the last underscore"""
    CF = W.module("echidna.core.config")
    names = W.choose("names", [["energy_mc"], ["energy_quench", "radial3_mc"], ["zed_pos_truth", "energy_mc", "radial_reco"],
                               ["cos_angle_mc", "a_b_c_d"], ["radial3_mc", "energy_mc", "a_b_c_d", "zed_pos_truth"], []])
    cfg = CF.SpectraConfig("cfg", OrderedDict((x, spar(W, x)) for x in names))
    q = W.call(lambda: cfg.get_dims())
    W.check("dimensions", q.ok and sorted(q.value) == sorted(DIMS[x][0] for x in names))
    for x in names:
        q = W.call(lambda: cfg.get_dim(x))
        W.check("dimension of an axis", q.ok and q.value == DIMS[x][0])
        q = W.call(lambda: cfg.get_dim_type(DIMS[x][0]))
        W.check("type of an axis", q.ok and q.value == DIMS[x][1])
    for x in ("zed", "pos", "angle", "a_b", "mc", "", "energy_mc"):
        q = W.call(lambda: cfg.get_dim_type(x))
        W.check("type of an unknown dimension raises IndexError", q.raised("IndexError"))


def globals_ok(W, cfg, want):
    """want: [(name, par, kind)]"""
    lookups(W, cfg, [w[0] for w in want], dict((w[0], w[1]) for w in want))
    for kind, get in (("global", cfg.get_global_pars), ("spectra", cfg.get_spectra_pars)):
        q = W.call(get)
        exp = [w[1] for w in want if w[2] == kind]
        W.check("%s parameters in order" % kind, q.ok and len(q.value) == len(exp) and
                all(a is b for a, b in zip(q.value, exp)))
    for w in want:
        W.check("parameter carries its name", w[1]._name == w[0] and w[1].get_name() == w[0])


@harness(H, contracts=CG, assumes=A)
def global_add(W):
    """parameters added one by one keep their kind, order and names; other kinds raise IndexError and change nothing"""
    CF = W.module("echidna.core.config")
    cfg = CF.GlobalFitConfig("cfg", OrderedDict())
    n = W.choose("parameters", [0, 1, 2, 3])
    want = []
    for x in W.choose("order", orders(W, ["energy_resolution", "Te_rate", "radial_shift"][:n])):
        kind = W.choose("kind of " + x, ["global", "spectra"])
        p = fpar(W, "rate", x) if "rate" in x else gpar(W, x)
        q = W.call(lambda: cfg.add_par(p, kind))
        W.check("parameter added", q.ok)
        want.append((x, p, kind))
    globals_ok(W, cfg, want)
    bad = W.choose("bad kind", ["", "Global", "spectrum", "fit", None])
    q = W.call(lambda: cfg.add_par(gpar(W, "energy_scale"), bad))
    W.check("unknown kind raises IndexError", q.raised("IndexError"))
    globals_ok(W, cfg, want)


@harness(H, contracts=CG, assumes=A)
def global_add_spectra_fit(W):
    """adding a per-spectrum configuration: its parameters are added as spectra parameters with prefixed names"""
    CF = W.module("echidna.core.config")
    cfg = CF.GlobalFitConfig("cfg", OrderedDict())
    want = []
    for x in ["energy_scale", "radial_shift"][:W.choose("present", [0, 1, 2])]:
        p = gpar(W, x)
        cfg.add_par(p, "global")
        want.append((x, p, "global"))
    for s in W.choose("spectra", [["Te"], ["Te", "U"], ["U", "Te_0n2b"], []]):
        names = ["rate", "old_rate"][:W.choose("rates of " + s, [1, 2])]
        ps = [fpar(W, "rate", x, tag=s) for x in names]
        sub = CF.SpectraFitConfig("sub", OrderedDict(zip(names, ps)), s)
        q = W.call(lambda: cfg.add_config(sub))
        W.check("configuration added", q.ok)
        want += [(s + "_" + x, p, "spectra") for x, p in zip(names, ps)]
        q = W.call(lambda: list(sub.get_pars()))
        W.check("added configuration keeps its parameters", q.ok and [str(x) for x in q.value] == names and
                all(sub.get_par(x) is p for x, p in zip(names, ps)))
    globals_ok(W, cfg, want)


@harness(H, contracts=CG, assumes=A)
def global_add_global(W):
    """adding a global configuration: all its parameters, with their kinds; other configurations are refused with ValueError"""
    CF = W.module("echidna.core.config")
    cfg, sub = CF.GlobalFitConfig("cfg", OrderedDict()), CF.GlobalFitConfig("sub", OrderedDict())
    want, new = [], []
    for x in ["energy_scale", "Te_rate"][:W.choose("present", [0, 1, 2])]:
        p, k = (fpar(W, "rate", x), "spectra") if "rate" in x else (gpar(W, x), "global")
        cfg.add_par(p, k)
        want.append((x, p, k))
    for x in W.choose("order", orders(W, ["U_rate", "zed_pos_scale", "energy_resolution"][:W.choose("new", [0, 1, 2, 3])])):
        p, k = (fpar(W, "rate", x), "spectra") if "rate" in x else (gpar(W, x), "global")
        sub.add_par(p, k)
        new.append((x, p, k))
    q = W.call(lambda: cfg.add_config(sub))
    W.check("configuration added", q.ok)
    full = want + [w for w in new if w[2] == "global"] + [w for w in new if w[2] == "spectra"]
    names = W.call(lambda: [str(x) for x in cfg.get_pars()])
    W.check("existing parameters first", names.ok and names.value[:len(want)] == [w[0] for w in want] and
            sorted(names.value) == sorted(w[0] for w in full))
    if names.ok:
        by = dict((w[0], w) for w in full)
        globals_ok(W, cfg, [by[x] for x in names.value if x in by])
    globals_ok(W, sub, new)
    other = CF.SpectraConfig("spc", OrderedDict([("energy_mc", spar(W, "energy_mc"))]))
    before = [str(x) for x in cfg.get_pars()]
    q = W.call(lambda: cfg.add_config(other))
    W.check("other configurations raise ValueError", q.raised("ValueError"))
    W.check("refused configuration changes nothing", [str(x) for x in cfg.get_pars()] == before)
