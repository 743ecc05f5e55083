"""F05 intensity conversion."""
from .common import *
from fractions import Fraction

TOP = {"uint8": 255, "uint16": 65535}


def call(mod, npx, p, typ, method, scale, top, kind):
    kw = dict(method=method)
    if scale is not None:
        kw["scalevalue"] = scale
    if top is not None:
        kw["maxScale"] = top
    arg = p[0] if kind == "single" else p
    if kind == "object":
        arg = mod.EBSDPatterns()
        arg.patterns, arg.nPatterns = p, p.shape[0]
    return mod.pat_flt2int(arg, typeout=None if typ is None else getattr(npx, typ), **kw)


def rep(i):
    from pyebsdindex import ebsd_pattern
    scale = None if i["scale"] is None else float(Fraction(i["scale"]))
    rng = np.random.default_rng(2)
    base = np.array([[float(x) for x in i["p"]]])
    tries = [base, np.round(base)] + [rng.uniform(lo, hi, base.shape) for lo, hi in
                                      ((0, 200), (-50, 90), (100, 60000), (0, 90000), (-3000, -1000), (30, 31))]
    tops = [None] if i["top"] is None else [float(i["top"]), 50.0, 300.0, 40000.0]
    for p in tries:
        p = p.reshape(i["shape"])
        for top in tops:
            m = one(ebsd_pattern, p, i["typ"], i["method"], scale, top, i["kind"])
            if m:
                return m


def one(mod, p, typ, method, scale, top, kind):
    keep = p.copy()
    what = "%s to %s, values %s, maximum %s" % (method, typ, p.reshape(-1).tolist(), top)
    try:
        with np.errstate(all="ignore"):
            r = call(mod, np, p, typ, method, scale, top, kind)
    except Exception as e:
        return "%s: %r" % (what, e)
    if not np.array_equal(p, keep):
        return what + ": the input is modified"
    if kind == "single":
        p = p[:1]
    if r.shape != p.shape:
        return what + ": shape %s" % (r.shape,)
    if typ is None:
        if r.dtype not in (np.uint8, np.uint16) or (abs(p.max() - 258) > 1 and (p.max() > 258) != (r.dtype == np.uint16)):
            return what + ": type %s" % r.dtype
        typ = r.dtype.name
    if r.dtype.name != typ:
        return what + ": type %s" % r.dtype
    lim = TOP[typ]
    a, b = p.reshape(-1), r.reshape(-1).astype(float)
    lo = a.min()
    if method == "clip":
        t = lim if top is None else min(top, lim)
        want, tol = np.clip(a, 0, t), 1.0
    else:
        s = 0.98 if scale is None else scale
        x = a - lo if method == "fullscale" or lo < 0 else a
        t = x.max() if top is None else top
        if t <= 0:
            return
        want, tol = np.clip(x * s * lim / t, 0, lim), 0.5 + 1e-3 * lim / 255
    bad = np.abs(b - want) > tol + 1e-2
    if bad.any():
        return what + ": %g becomes %g, expected about %g" % (a[bad][0], b[bad][0], want[bad][0])
    o = np.argsort(a, kind="stable")
    if (np.diff(b[o]) < 0).any():
        return what + ": the order of intensities is not preserved: %s" % b.tolist()


def run():
    c = Check("F05", "intensity conversion", modname="f05", functions=["pat_flt2int"],
              bounds="all real values of 2 patterns of 2 pixels (single patterns: 2 pixels), every method, uint8, uint16 or "
                     "type left to be chosen, scale 0.5, 0.98 and 1, any positive maximum",
              assumptions=["exact reals", "patterns are not constant where the full range is scaled"])
    T = c.twin()
    m = T.load("pyebsdindex.ebsd_pattern")

    def ob(typ, method, scale, top, kind, shape):
        def f(h):
            snp.MAX_FRESH = True
            n = int(np.prod(shape))
            p = reals("p", *shape)
            P = snp.plain(p).reshape(-1)
            for x in P:
                assume(x >= -100000)
                assume(x <= 100000)
            t = None
            if top:
                t = Real("top")
                assume(t >= 1)
                assume(t <= 100000)
            h["inputs"].update(p=list(P), shape=list(shape), typ=typ, method=method, scale=scale, top=t, kind=kind)
            used = list(P)[:n // shape[0]] if kind == "single" else list(P)
            if method != "clip":
                assume(snp.mkbool(z3.Or([Z(a) != Z(b) for a in used for b in used])))
                assume(snp.mkbool(z3.Or([Z(a) > 0 for a in used])))
            r = call(m, snp.np, p.copy(), typ, method, None if scale is None else Fraction(scale), t, kind)
            want_shape = (1,) + shape[1:] if kind == "single" else shape
            if tuple(r.shape) != tuple(want_shape):
                return [Claim("shape", False)]
            cl = []
            name = np.dtype(r.dtype).name
            if typ is None:
                mx = z3.Or([Z(a) > 258 for a in used])
                cl.append(Claim("16 bit is chosen for values above 258 only", mx if name == "uint16" else z3.Not(mx)))
            else:
                cl.append(Claim("type", name == typ))
            lim = TOP.get(name)
            if lim is None:
                return cl + [Claim("unsigned integer type", False)]
            R = [Z(x) for x in snp.plain(r).reshape(-1)]
            U = [Z(x) for x in used]
            for i, x in enumerate(R):
                cl.append(Claim("value %d within the type" % i, [x >= 0, x <= lim]))
                if method == "clip":
                    hi = z3.RealVal(lim)
                    if t is not None:
                        hi = z3.If(Z(t) < hi, Z(t), hi)
                    w = z3.If(U[i] < 0, z3.RealVal(0), z3.If(U[i] > hi, hi, U[i]))
                    cl.append(Claim("value %d is clipped, not changed otherwise" % i, [x - w < 1, w - x < 1]))
                else:
                    lo, hi = U[0], U[0]
                    for u in U[1:]:
                        lo, hi = z3.If(u < lo, u, lo), z3.If(u > hi, u, hi)
                    sh = lo if method == "fullscale" else z3.If(lo < 0, lo, z3.RealVal(0))
                    s = z3.RealVal(str(Fraction("0.98" if scale is None else scale)))
                    top_ = Z(t) if t is not None else hi - sh
                    w = (U[i] - sh) * s * lim                       # expected value times top_
                    cl.append(Claim("value %d is scaled" % i,
                                    [z3.Or(z3.And(x * top_ - w <= top_ * 51 / 100, w - x * top_ <= top_ * 51 / 100),
                                           z3.And(x == lim, w >= lim * top_))]))
            for i in range(len(R)):
                for j in range(len(R)):
                    if i != j:
                        cl.append(Claim("order of values %d and %d" % (i, j), [z3.Implies(U[i] <= U[j], R[i] <= R[j])]))
            return cl
        c.obligation("%s to %s scale %s%s %s %s" % (method, typ, scale, " given maximum" if top else "", kind, shape), f, "rep",
                     timeout=20, max_paths=200, budget=60)

    for typ in ("uint8", "uint16", None):
        for method in ("clip", "fullscale", "scale"):
            for top in (False, True):
                ob(typ, method, None, top, "array", (2, 1, 2) if method == "clip" or thorough() else (2, 1, 1))
                if typ == "uint8" and method != "clip":
                    ob(typ, method, "1", top, "array", (2, 1, 2) if thorough() else (3, 1, 1))
                    ob(typ, method, "1/2", top, "object", (3, 1, 1))
            ob(typ, method, None, False, "single", (1, 2, 2) if thorough() else (1, 1, 2))
            ob(typ, method, None, False, "object", (3, 1, 1))
    return c
