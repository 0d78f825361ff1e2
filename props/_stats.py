"""the published formulas of the test statistics, and the inputs shared by C01-C05"""
EPS = "1e-34"
MOD = "echidna.fit.test_statistic"
ALL = ("BakerCousinsChi", "BakerCousinsChiUp", "BakerCousinsLL", "Pearson", "Neyman", "ExtendedLL")
POOL = [0., 1., 2., .5, 3., 10., 1e-35, 7.25, 1000., 0.125, 64., lambda r: 10. ** r.uniform(-8, 3), lambda r: r.uniform(0, 20)]


INPLACE = ("BakerCousinsLL", "Pearson", "Neyman")     # these write the limit into their arguments (known finding, C03)


def inputs(W, lo=0, name=None, up=False):
    """two arrays of non-negative counts, floats or integers. For the statistics in INPLACE integer arrays have no empty
    bins (known finding: the limit is truncated to zero in an integer array). up: no bin has an excess."""
    n = W.dim("n", lo=lo)
    k = W.choose("dtype", ["r", "i"])
    l = 1 if name in INPLACE else 0
    if k == "r":
        o = W.array("o", (n,), lo=0, pool=POOL)
        e = W.array("e", (n,), lo=0, pool=POOL)
    else:
        o = W.array("o", (n,), lo=l, k="i", pool=[0, 1, 2, 3, 10, 7, 64][l:])
        e = W.array("e", (n,), lo=l, k="i", pool=[0, 1, 2, 3, 10, 7, 64][l:])
    if up:
        if W.sym:
            W.require_all((n,), lambda i: W.le(W.at(o, i), W.at(e, i)))
        else:
            for i in range(n):
                if o[i] > e[i]:
                    o[i] = e[i]
            W.used["o"] = o.tolist()
    return n, o, e


def spec(W, name, o, e):
    """contribution of one bin, from the property statement"""
    eps = W.num(EPS)
    o, e = o * W.num("1"), e * W.num("1")
    ec = W.ite(W.lt(e, eps), eps, e)        # zero divisor in the documented limit
    oz = W.lt(o, eps)
    if name in ("BakerCousinsChi", "BakerCousinsLL", "BakerCousinsChiUp"):
        if oz:
            v = ec
        else:
            v = ec - o + o * W.log(W.div(o, ec))
        if name == "BakerCousinsLL":
            return v
        if name == "BakerCousinsChiUp" and W.lt(e, o):
            return W.num("0")
        return 2 * v
    if name == "Pearson":
        if oz:
            return ec
        return W.div((o - ec) * (o - ec), ec)
    if name == "Neyman":
        oc = W.ite(oz, eps, o)
        if W.lt(e, eps):
            return oc
        return W.div((e - oc) * (e - oc), oc)
    if name == "ExtendedLL":
        return e - o * W.log(ec)
    raise KeyError(name)


def close(W, v, s, n=1):
    """equal up to the 1e-34 limit, which the statistics may or may not add for each of the n (numerically) empty bins"""
    if not W.sym:
        return W.eq(v, s)
    t = W.num("2e-34") * n
    return W.and_(W.le(v - s, t), W.le(s - v, t))


def statistic(W, name, per_bin):
    return getattr(W.module(MOD), name)(per_bin=per_bin)


def shapes(W, nm, r):
    return tuple(W.dim("%s%d" % (nm, j), lo=0, hi=None if W.sym else 3) for j in range(r))
