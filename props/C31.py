"""C31: names of pre-convolved spectra"""
from pyvc.runner import harness
H = []
ID = "C31"
KINDS = {"ResolutionParameter": "smear", "ScaleParameter": "scale", "ShiftParameter": "shift"}
C = [k + ".get_pre_convolved" for k in sorted(KINDS)]
VALUES = [200., 20., 2., 2000., .05, .5, 1., 1.05, 0.3, 100., 10., 10.5, 1e-5, 1e-10, 1e-100, 1e-50, 1e16, 1e20, 1e22, 520., 0.001, 110., 0.1,
          3.5, 12.25, 1000., 5., 50.]
A = ["str() of floating point numbers: the text is a function of the value, ends in '.0' exactly for whole numbers below 1e16, and "
     "different values have different texts", "directory layouts and the other parts of the file name are enumerated"]


def par(W, kind, value, dim="energy_mc"):
    P = W.module("echidna.core.parameter")
    p = getattr(P, kind)("par", 1., None, 0., 2., 3, dim)
    p.set_current_value(value)
    return p


def ext(W, kind, value):
    if kind == "ResolutionParameter":
        return "ly" if W.lt(10, value) else "rs"
    return "sc" if kind == "ScaleParameter" else "sh"


def value(W, name):
    return W.real(name, gt=0, pool=VALUES)


def text(W, kind, v):
    """(suffix, text of the value) from the name for a file without any entries; the text must read as the value"""
    e = ext(W, kind, v)
    q = W.call(lambda: par(W, kind, v).get_pre_convolved("a/energy_mc/", "f.hdf5"))
    W.check("accepted", q.ok)
    d, n = q.value
    W.check("suffix", n.startswith("f_") and n.endswith(e + ".hdf5"))
    t = n[2:-len(e + ".hdf5")]
    W.check("the entry is the current value", W.eq(W.numeral(t), v))
    W.check("directory", d == "a/energy_mc/%s/" % KINDS[kind])
    return e, t


def directories(syst):
    other = [x for x in ("smear", "scale", "shift") if x != syst]
    a = "/data/%s/" % other[0]
    return [("energy_mc", 1), ("energy_mc/", 1), ("/data/energy_mc/", 1), (a + "energy_mc/", 1),
            ("x/%s/energy_mc/" % syst, 1), ("x/energy_mc/%s/" % syst, 0), ("x/energy_mc/%s" % syst, 0),
            ("x/energy_mc/%s/%s/" % tuple(other), 1), ("x/energy_mc/%s/%s/" % (syst, other[0]), 0),
            ("x/energy_mc/%s/%s" % (other[1], syst), 0), ("x/energy_mc/%sed/" % syst, 1),
            ("x/radial_mc/%s/energy_mc/" % syst, 1), ("x/energy_mc/%s/energy_mc/" % syst, 1),
            ("x/energy_mc/%s/energy_mc/%s/" % (syst, syst), 0), ("energy_mc_%s/energy_mc/" % syst, 1)]


@harness(H, contracts=C, assumes=A)
def directory(W):
    """the systematic's directory once per dimension, everything else kept"""
    kind = W.choose("kind", sorted(KINDS))
    syst = KINDS[kind]
    v = value(W, "value")
    added = W.choose("added_dim", [False, True])
    if added:
        ds = [("x/energy_mc/", 1), ("x/energy_mc", 1), ("x/energy_mc/%s/energy_mc/" % syst, 1), ("energy_mc/%s/radial_mc/" % syst, 1)]
    else:
        ds = directories(syst)
    d, new = W.choose("directory", ds)
    q = W.call(lambda: par(W, kind, v).get_pre_convolved(d, "f.hdf5", added_dim=added))
    want = (d if d.endswith("/") else d + "/") + (syst + "/" if new else "")
    W.check("directory", q.ok and q.value[0] == want)


FILES = [["f"], ["Te130", "mc", "smeared"], ["a", "b"], ["2n2b", "200"], ["x.y"]]


@harness(H, contracts=C, assumes=A)
def filename(W):
    """an entry of the same systematic is replaced where it stands, otherwise one is appended; other parts are kept"""
    kind = W.choose("kind", sorted(KINDS))
    v = value(W, "value")
    e, t = text(W, kind, v)
    base = W.choose("base", FILES)
    others = [x + o for x, o in zip(("0.05", "12", "1.5", "300"), [o for o in ("rs", "ly", "sc", "sh") if o != e])]
    before = W.choose("other entries before", [[], others[:1], others[1:]])
    after = W.choose("other entries after", [[], others[2:3]])
    have = W.choose("has an entry", [True, False])
    old = W.choose("old value", ["200", "0.05", "1", "1e-05"])
    parts = base + before + ([old + e] if have else []) + after
    name = "_".join(parts) + ".hdf5"
    want = base + before + ([t + e] if have else []) + after + ([] if have else [t + e])
    q = W.call(lambda: par(W, kind, v).get_pre_convolved("a/energy_mc/", name))
    W.check("file name", q.ok and W.eq(q.value[1], "_".join(want) + ".hdf5"))


@harness(H, contracts=C, assumes=A)
def different(W):
    """different current values give different names"""
    kind = W.choose("kind", sorted(KINDS))
    a, b = value(W, "value"), value(W, "other")
    W.require(W.not_(W.eq(a, b)))
    name = W.choose("name", ["f.hdf5", "f_1.5rs_1sc_2sh.hdf5", "f_200ly_1.5sh_2sc.hdf5"])
    q = W.call(lambda: par(W, kind, a).get_pre_convolved("a/energy_mc/", name))
    r = W.call(lambda: par(W, kind, b).get_pre_convolved("a/energy_mc/", name))
    W.check("different names", q.ok and r.ok and W.not_(W.eq(q.value[1], r.value[1])))


@harness(H, contracts=C, assumes=A)
def whole_numbers(W):
    """integer current values: named like the equal floating point value"""
    kind = W.choose("kind", sorted(KINDS))
    i = W.int("value", lo=1, pool=[1, 10, 20, 100, 200, 2000, 11, 5, 50, 1000000])
    e, t = text(W, kind, i)
    f, u = text(W, kind, i * W.num("1.0"))
    W.check("same text", W.eq(t, u) and e == f)


@harness(H, contracts=C, assumes=A)
def sequence(W):
    """several systematics one after the other, then new values: each entry holds its parameter's latest value"""
    k1, k2 = W.choose("kinds", [("ResolutionParameter", "ScaleParameter"), ("ScaleParameter", "ShiftParameter"),
                                ("ShiftParameter", "ResolutionParameter")])
    a, b, c = value(W, "first"), value(W, "second"), value(W, "third")
    (e1, t1), (e2, t2) = text(W, k1, a), text(W, k2, b)
    e3, t3 = text(W, k1, c)
    W.require(e1 == e3)
    q = W.call(lambda: par(W, k1, a).get_pre_convolved("d/energy_mc/", "f.hdf5", added_dim=True))
    W.check("first", q.ok)
    r = W.call(lambda: par(W, k2, b).get_pre_convolved(*q.value))
    W.check("second", r.ok and r.value[0] == "d/energy_mc/%s/%s/" % (KINDS[k1], KINDS[k2])
            and W.eq(r.value[1], "f_%s%s_%s%s.hdf5" % (t1, e1, t2, e2)))
    s = W.call(lambda: par(W, k1, c).get_pre_convolved(*r.value))
    W.check("again", s.ok and s.value[0] == r.value[0] and W.eq(s.value[1], "f_%s%s_%s%s.hdf5" % (t3, e1, t2, e2)))


@harness(H, contracts=C)
def not_set(W):
    """without a current value: ValueError"""
    kind = W.choose("kind", sorted(KINDS))
    q = W.call(lambda: par(W, kind, None).get_pre_convolved("a/energy_mc/", "f.hdf5"))
    W.check("refused", q.raised("ValueError"))
