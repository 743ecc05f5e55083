"""N02 weights of the neighbour average."""
from .nl import *
import math

LAM, DT, SG = 0.5, 0.25, 0.5
KINDS = ("plain", "saturation", "offset", "noise")


def run_one(mod, npx, nr, nc, sr, vals, kind, sg=None, off=0.0):
    """patterns of 1+P pixels: pixel 0 decides the weights, pixels 1.. are the identity: they come out as the weights"""
    P = nr * nc
    d = npx.zeros((P, 1, 1 + P))
    m = npx.zeros((1, 1 + P), dtype=npx.uint8)
    m[0, 0] = 1
    for p in range(P):
        d[p, 0, 0] = vals[p]
        d[p, 0, 1 + p] = 1.0
    s = npx.zeros((nr, nc)) + SG
    if sg is not None:
        for p in range(P):
            s[p // nc, p % nc] = sg[p]
    out, _, dst = nlpar(mod, npx, d, nr, nc, mask=m, sigma=s, chunksize=nr, searchradius=sr, lam=LAM, dthresh=DT,
                        saturation_protect=kind == "saturation", automask=False, diff_offset=off)
    return out


def window(j, n, sr):
    """positions averaged for position j of n: 2 sr + 1 of them, moved inside the scan"""
    a = min(max(j - sr, 0), max(n - (2 * sr + 1), 0))
    return a, min(a + 2 * sr + 1, n)


def spec(vals, nr, nc, sr, p, kind, sg, off, exp, sqrt, mx, comparable):
    (a, b), (c, d) = window(p // nc, nr, sr), window(p % nc, nc, sr)
    w = [0.0] * (nr * nc)
    for k in range(nr * nc):
        if not (a <= k // nc < b and c <= k % nc < d):
            continue
        if k == p:
            w[k] = 1.0 + off
            continue
        n = 1.0 if comparable(p, k) else 0.0
        s2 = sg[p] * sg[p] + sg[k] * sg[k]
        if n:
            dist = ((vals[p] - vals[k]) * (vals[p] - vals[k]) - s2) / (s2 * sqrt(2.0))
        else:
            dist = 0.0
        w[k] = exp(-1.0 * mx(dist - DT, 0.0) * (1.0 / LAM ** 2))
    return w


def rep(i):
    real_env()
    from pyebsdindex import nlpar_cpu as m
    nr, nc, sr, kind = int(i["nr"]), int(i["nc"]), int(i["sr"]), i["kind"]
    P = nr * nc
    sg = [abs(float(x)) for x in i["sg"]] if i.get("sg") is not None else [SG] * P
    off = float(i.get("off", 0.0))
    rng = np.random.default_rng(5)
    for vals in (i["d"], rng.normal(size=P), 0.5 * rng.normal(size=P), np.zeros(P), 3 + rng.normal(size=P)):
        vals = [float(np.float32(float(x))) for x in vals]
        try:
            out = run_one(m, np, nr, nc, sr, vals, kind, sg, off)
        except (IndexError, ValueError, ZeroDivisionError) as e:
            return "%dx%d scan, search radius %d: %r" % (nr, nc, sr, e)
        w, v = out[:, 0, 1:], out[:, 0, 0]
        mxv = max(list(vals) + [1.0])
        if kind == "saturation" and any(abs(x - 0.999 * mxv) < 1e-3 for x in vals):
            continue
        for p in range(P):
            s = spec(vals, nr, nc, sr, p, kind, sg, off, lambda x: math.exp(max(x, -700)), math.sqrt, max,
                     lambda a, b: kind != "saturation" or max(vals[a], vals[b]) < 0.999 * mxv)
            s = np.array(s) / sum(s)
            if not np.allclose(w[p], s, atol=2e-4):
                return "%dx%d scan, radius %d, pixel values %s: pattern %d is averaged with weights %s, expected %s" % (
                    nr, nc, sr, vals, p, w[p].tolist(), s.tolist())
            if not np.isclose(v[p], np.dot(s, vals), atol=1e-3 * (1 + max(map(abs, vals)))):
                return "pattern %d: averaged pixel %g, expected %g" % (p, v[p], np.dot(s, vals))


def run():
    snp.MAX_FRESH = True
    c = Check("N02", "averaging weights", modname="n02",
              functions=["NLPAR.nlpar_nb", "NLPAR.calcnlpar", "EBSDPatternFile.read_data", "EBSDPatternFile.write_data"],
              bounds="scans up to 5 patterns (and 2x2, 2x3, 3x3 for the weight formula), search radius 1 and 2, one pixel deciding the "
                     "weights and one indicator pixel per pattern",
              stubs=["pattern files live in memory"], assumptions=["exact real arithmetic; exp is any positive function of its exact argument"])
    T = c.twin()
    m = T.load("pyebsdindex.nlpar_cpu")
    confs = [(1, 1, 1, "plain"), (2, 1, 1, "plain"), (1, 2, 1, "plain"), (3, 1, 1, "plain"), (1, 3, 1, "plain"),
             (4, 1, 1, "plain"), (1, 4, 1, "plain"), (5, 1, 1, "plain"), (1, 5, 1, "plain"), (2, 2, 1, "plain"),
             (2, 3, 1, "plain"), (3, 2, 1, "plain"), (4, 2, 1, "plain"), (2, 4, 1, "plain"), (3, 3, 1, "plain"),
             (5, 1, 2, "plain"), (1, 6, 2, "plain"),
             (2, 1, 1, "saturation"), (2, 1, 1, "offset"), (1, 4, 1, "offset"), (2, 1, 1, "noise"),
             (4, 1, 1, "noise")]
    for nr, nc, sr, kind in confs:
        def f(h, nr=nr, nc=nc, sr=sr, kind=kind):
            P = nr * nc
            snp.EXP_SIMPLE = True
            d = reals("d", P)
            sg, off = [SG] * P, 0.0
            if kind == "noise":
                sg = list(reals("sg", P))
                for x in sg:
                    assume(x >= 0.125)
                h["inputs"]["sg"] = sg
            if kind == "offset":
                off = Real("off")
                assume(off >= 0)
                h["inputs"]["off"] = off
            h["inputs"].update(nr=nr, nc=nc, sr=sr, kind=kind, d=list(d))
            out = run_one(m, snp.np, nr, nc, sr, list(d), kind, sg, off)
            o = snp.plain(out)
            cl = []
            mxv = None
            if kind == "saturation":
                mxv = sym.smax(*(list(d) + [1.0]))
            for p in range(P):
                w = [o[p, 0, 1 + k] for k in range(P)]
                s = spec(list(d), nr, nc, sr, p, kind, sg, off, snp.s_exp, lambda x: snp.s_sqrt(Sym(z3.RealVal(2))), sym.smax,
                         lambda a, b: mxv is None or bool(sym.smax(d[a], d[b]) < 0.999 * mxv))
                tot = sum((Z(x) for x in s), z3.RealVal(0))
                cl.append(Claim("weights of pattern %d" % p, [poly_eq(Z(w[k]), Z(s[k]) / tot) for k in range(P)]))
                cl.append(Claim("pattern %d is the weighted sum" % p, poly_eq(
                    Z(o[p, 0, 0]), sum((Z(s[k]) * Z(d[k]) for k in range(P)), z3.RealVal(0)) / tot)))
                if P <= 3:
                    sm = sum((Z(x) for x in w), z3.RealVal(0))
                    cl.append(Claim("weights of %d: not negative, sum to one" % p,
                                    [[Z(x) >= 0 for x in w], poly_eq(sm, z3.RealVal(1))]))
            return cl
        c.obligation("%dx%d radius %d %s" % (nr, nc, sr, kind), f, "rep", timeout=20, max_paths=60, budget=200)
    return c
