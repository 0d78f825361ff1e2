"""C30: save and load"""
from collections import OrderedDict
from pyvc.runner import harness
from props import C23 as K
from props import _spectra as S
H = []
ID = "C30"
A = ["h5py is a stand-in: a file keeps groups, attributes and copies of arrays and gives them back",
     "in the proofs json gives back equal lists, numbers, texts and dictionaries (with the order of their entries); run-time cases use the real json",
     "the number of axes, parameters and regions of interest is enumerated; global fit parameters come before per-spectrum ones"]
PATH = "/pyvc-standin/file.hdf5"


class Text(str):
    """what json makes of an object, in the proofs"""


def plain(o):
    if isinstance(o, dict):
        return OrderedDict((k, plain(v)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    return o


def dumps(o, **kw):
    t = Text("x")
    t.obj = plain(o)
    return t


def loads(t, **kw):
    return plain(t.obj)


def store(W):
    m = W.module("echidna.output.store")
    if W.sym:
        W.override("echidna.output.store", "json", type("Json", (), {"dumps": staticmethod(dumps), "loads": staticmethod(loads)}))
    import pyvc.stubs
    pyvc.stubs.FILES.clear()
    return m


def same_axes(W, a, b):
    W.check("names and order of the axes", b is not a and [str(x) for x in b.get_pars()] == list(a.get_pars()) and b.get_name() == a.get_name())
    for x in a.get_pars():
        p, q = a.get_par(x), b.get_par(x)
        W.check("axis", type(p) is type(q) and q._name == x)
        for f in ("_low", "_high", "_bins"):
            W.check("axis: " + f[1:], W.same(getattr(p, f), getattr(q, f)))


def same_fit(W, what, a, b):
    W.check(what + ": name, parameters and order", type(a) is type(b) and b.get_name() == a.get_name() and
            [str(x) for x in b.get_pars()] == list(a.get_pars()))
    for x in a.get_pars():
        K.compare(W, what, a.get_par(x), b.get_par(x))
        if hasattr(a, "get_global_pars"):
            W.check(what + ": global or per spectrum", a._parameters[x]["type"] == b._parameters[x]["type"])
    if hasattr(a, "_spectra_name"):
        W.check(what + ": name of the spectrum", a._spectra_name == b._spectra_name)


def same_array(W, what, a, b):
    W.check(what + ": shape", W.isarray(b) and W.eq(tuple(W.shape(a)), tuple(W.shape(b))))
    if W.isarray(b) and len(W.shape(a)) == len(W.shape(b)):
        W.check_all(what, tuple(W.shape(a)), lambda *i: W.same(W.at(a, *i), W.at(b, *i)))


def same_style(a, b):
    return dict(a) == b if isinstance(a, dict) and isinstance(b, dict) else isinstance(a, str) and isinstance(b, str) and a == b


def spectrum(rank):
    def h(W):
        st = store(W)
        M = W.module("echidna.core.config")
        sp, ax, d = S.make(W, rank)
        sp._name = W.choose("spectrum", ["Te130_0n2b", "U238 chain"])
        sp._bipo = W.choose("bipo", [0, 1])
        if W.choose("background", [True, False]):
            sp.set_background_name("bkg")
        else:       # made from the name, which has to allow it
            sp._name = "Te130_mc_smeared"
        n = W.choose("fit parameters", [None, 1] if rank < 3 else [None, 2])
        if n:
            sp.set_fit_config(M.SpectraFitConfig("fit cfg", OrderedDict((x, K.fit_par(W, x, False)) for x in ["rate", "Te_rate"][:n]), sp._name))
        style = sp._style = W.choose("style", [{}, "b-", "", {"color": "blue"}, {"color": "red", "label": "Te 130", "width": 2}])
        for x in W.choose("regions", [(), (0,), tuple(range(rank))]):
            sp._rois[ax[x].name] = {"low": W.real("roi_low%d" % x), "high": W.real("roi_high%d" % x), "efficiency": W.real("eff%d" % x)}
        s = S.Snap(W, sp)
        fc = sp.get_fit_config()
        twice = W.choose("append", [False, True])
        if twice:       # overwrites what an earlier spectrum left in the file
            o, _, _ = S.make(W, 1, prefix="old_")
            o.set_background_name("old")
            W.check("first saved", W.call(lambda: st.dump(PATH, o)).ok)
        q = W.call(lambda: st.dump(PATH, sp, append=True, overwrite=True) if twice else st.dump(PATH, sp))
        W.check("saved", q.ok)
        if not q.ok:
            return
        S.check_unchanged(W, "saved spectrum", sp, s)
        r = W.call(lambda: st.load(PATH))
        W.check("loaded", r.ok and r.value is not sp)
        if not r.ok:
            return
        t = r.value
        W.check("name", t.get_name() == s.name)
        W.check("background name", t.get_background_name() == sp.get_background_name())
        W.check("number of decays", W.same(t.get_num_decays(), s.nd))
        W.check("raw events", W.same(t._raw_events, s.raw))
        W.check("coincidence flag", W.same(t.get_bipo(), s.bipo))
        W.check("style", same_style(t.get_style(), style))
        W.check("regions of interest", sorted(t._rois) == sorted(s.rois) and all(sorted(t._rois[x]) == sorted(s.rois[x]) for x in s.rois))
        for x in s.rois:
            for y in s.rois[x]:
                W.check("regions of interest: " + y, x in t._rois and y in t._rois[x] and W.same(t._rois[x][y], s.rois[x][y]))
        same_axes(W, sp._config, t._config)
        same_array(W, "content", d, t._data)
        W.check("fit configuration", (t.get_fit_config() is None) == (fc is None))
        if fc is not None and t.get_fit_config() is not None:
            same_fit(W, "fit configuration", fc, t.get_fit_config())
    h.__name__ = "spectrum_rank%d" % rank
    h.__doc__ = "a saved spectrum of %d axes loads back unchanged" % rank
    harness(H, contracts=["dump", "load", "SpectraConfig.load", "SpectraFitConfig.load"], assumes=A, cases=400)(h)


for n in (1, 2, 3):
    spectrum(n)

GLOBAL = [(["energy_scale"], []), ([], ["Te_rate"]), (["energy_resolution", "radial_shift"], ["Te_rate"]), (["zed_pos_scale"], ["Te_rate", "U_rate"])]


def configs(W, which):
    M = W.module("echidna.core.config")
    gl, spc = GLOBAL[which]
    fit = M.GlobalFitConfig("fit cfg", OrderedDict())
    for x in gl:
        fit.add_par(K.fit_par(W, x, False), "global")
    for x in spc:
        fit.add_par(K.fit_par(W, x, False), "spectra")
    return fit, gl + spc


def fit_results(which, per_bin):
    def h(W):
        st = store(W)
        fit, names = configs(W, which)
        ax = [S.axis(W, j) for j in range(W.choose("axes", [1, 2]))]
        cfg = S.config(W, ax, name="spectral cfg")
        g = W.module("echidna.fit.minimise").GridSearch(fit, cfg, name=W.choose("name", ["results", None]), per_bin=per_bin)
        shape = tuple(fit.get_par(x)._bins for x in names)
        stats = W.array("stats", shape + (tuple(a.bins for a in ax) if per_bin else ()))
        pen = W.array("penalty", shape)
        g._stats, g._penalty_terms, g._resets = W.copy(stats), W.copy(pen), W.real("resets")
        q = W.call(lambda: st.dump_fit_results(PATH, g))
        W.check("saved", q.ok)
        r = W.call(lambda: st.load_fit_results(PATH))
        W.check("loaded", r.ok and type(r.value) is type(g) and r.value is not g)
        if not (q.ok and r.ok):
            return
        t = r.value
        W.check("name", t.get_name() == g.get_name())
        W.check("resets", W.same(t._resets, g._resets))
        W.check("statistic per bin", t._per_bin == per_bin)
        same_array(W, "statistics", stats, t._stats)
        same_array(W, "penalties", pen, t._penalty_terms)
        same_axes(W, cfg, t._spectra_config)
        same_fit(W, "fit configuration", fit, t._fit_config)
    h.__name__ = "fit_results_%d%s" % (which, "_per_bin" if per_bin else "")
    h.__doc__ = "saved fit results load back unchanged"
    harness(H, contracts=["dump_fit_results", "load_fit_results", "GlobalFitConfig.load", "SpectraConfig.load"], assumes=A, cases=400)(h)


for i in range(len(GLOBAL)):
    for b in (False, True):
        fit_results(i, b)


def limit_results(which, fits, **opt):
    def h(W):
        st = store(W)
        M, P = W.module("echidna.core.config"), W.module("echidna.core.parameter")
        GS = W.module("echidna.fit.minimise").GridSearch
        fit, names = configs(W, which)
        ax = [S.axis(W, 0)]
        cfg = S.config(W, ax, name="spectral cfg")
        lim = M.SpectraFitConfig("limit cfg", OrderedDict([("rate", K.fit_par(W, "rate", False))]), "signal")
        n = lim.get_par("rate")._bins
        g = W.module("echidna.fit.fit_results").LimitResults(fit, cfg, lim, W.choose("name", ["limit", None]))
        mode = W.choose("stored", ["all", "zero penalties", "zero best fits"])
        k = len(names)
        stats = W.array("stats", (n,))
        pen = W.zeros((n, k)) if mode == "zero penalties" else W.array("penalty", (n, k))
        best = W.zeros((n, k)) if mode == "zero best fits" else W.array("best", (n, k))
        g._stats, g._penalty_terms, g._best_fits = W.copy(stats), W.copy(pen), W.copy(best)
        subs = {}
        if fits:
            shape = tuple(fit.get_par(x)._bins for x in names)
            for i in range(n):
                if W.bool("fit%d" % i):
                    f = GS(fit, cfg, name="fit")
                    subs[i] = (W.array("sub_stats%d" % i, shape), W.array("sub_penalty%d" % i, shape), W.real("resets%d" % i))
                    f._stats, f._penalty_terms, f._resets = W.copy(subs[i][0]), W.copy(subs[i][1]), subs[i][2]
                    g._fit_results[i] = f
        q = W.call(lambda: st.dump_limit_results(PATH, g))
        W.check("saved", q.ok)
        r = W.call(lambda: st.load_limit_results(PATH))
        W.check("loaded", r.ok and type(r.value) is type(g) and r.value is not g)
        if not (q.ok and r.ok):
            return
        t = r.value
        W.check("name", t.get_name() == g.get_name())
        same_array(W, "statistics", stats, t._stats)
        same_array(W, "penalties", pen, t._penalty_terms)
        same_array(W, "best fits", best, t._best_fits)
        same_axes(W, cfg, t._spectra_config)
        same_fit(W, "limit configuration", lim, t._limit_config)
        if fits:
            W.check("names and order of the fit parameters", [str(x) for x in t._fit_config.get_pars()] == names)
            W.check("one result per scale", len(t._fit_results) == n)
            for i in range(n):
                f = t._fit_results[i]
                W.check("fit of a scale", (f is not None) == (i in subs))
                if i in subs and f is not None:
                    same_array(W, "fit of a scale: statistics", subs[i][0], f._stats)
                    same_array(W, "fit of a scale: penalties", subs[i][1], f._penalty_terms)
                    W.check("fit of a scale: resets", W.same(f._resets, subs[i][2]))
                    for x in names:
                        W.check("fit of a scale: best fit", W.same(f._fit_config.get_par(x)._best_fit, best[i][names.index(x)]))
        else:
            same_fit(W, "fit configuration", fit, t._fit_config)
    h.__name__ = "limit_results_%d%s" % (which, "_with_fits" if fits else "")
    h.__doc__ = "saved limit results load back unchanged"
    harness(H, contracts=["dump_limit_results", "load_limit_results", "GlobalFitConfig.load", "SpectraFitConfig.load", "SpectraConfig.load"],
            assumes=A, cases=300, **opt)(h)


for i in range(len(GLOBAL)):
    limit_results(i, False)
for i in (0, 1, 2):
    limit_results(i, True, sym=False, bound="300 random results: up to a few scales, each with or without a stored fit")


@harness(H, contracts=["dict_to_string", "string_to_dict"], sym=False, cases=1500, bound="1500 random dictionaries of 1 to 6 entries")
def strings(W):
    """text form of a dictionary"""
    st = store(W)
    d = OrderedDict()
    words = ["a", "low", "energy mc", "x_1", "blue", "-", "1", "2.5", "str", "int", "None", "", "True", "#fff", "k=1"]
    for i in range(W.choose("n", [1, 2, 3, 6])):
        k = W.choose("key%d" % i, [x for x in words if x])
        t = W.choose("type%d" % i, ["s", "i", "f"])
        d[k] = W.choose("text%d" % i, words) if t == "s" else int(W.int("int%d" % i)) if t == "i" else \
            float(W.real("real%d" % i, pool=[0., 1., -2.5, 1e-7, 1e22, 123456.789, .1, 1. / 3]))
    q = W.call(lambda: st.string_to_dict(st.dict_to_string(d)))
    W.check("parses back", q.ok and dict(q.value) == dict(d) and all(type(q.value[k]) is type(d[k]) for k in d))
    bad = W.choose("bad", [None, [1], {"a": 1}, (1, 2), 1j, True])
    e = OrderedDict(d)
    e["bad"] = bad
    q = W.call(lambda: st.dict_to_string(e))
    W.check("other types are refused", q.raised("TypeError"))
    q = W.call(lambda: st.string_to_dict("a:1;" + W.choose("type", ["bool", "list", "long", "", "Str"])))
    W.check("other types are refused when parsed", q.raised("TypeError"))
