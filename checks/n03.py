"""N03 noise estimate."""
from .nl import *
import math


def run_sigma(mod, npx, nr, nc, ch, vals, kind, npix=1):
    """calcsigma through the public method; vals[p][q]; the last pixel of each pattern is masked out"""
    P = nr * nc
    d = npx.zeros((P, 1, npix + 1))
    m = npx.zeros((1, npix + 1), dtype=npx.uint8)
    for q in range(npix):
        m[0, q] = 1
    for p in range(P):
        for q in range(npix):
            d[p, 0, q] = vals[p * npix + q]
        d[p, 0, npix] = -100.0 - p * p
    s, _, _ = nlpar(mod, npx, d, nr, nc, mask=m, only_sigma=True, chunksize=ch, saturation_protect=kind == "saturation",
                    automask=False)
    return s


def halfsq(vals, npix, a, b):
    s = 0.0
    for q in range(npix):
        e = vals[a * npix + q] - vals[b * npix + q]
        s = s + e * e
    return s


def usable(sat, npix, a, b):
    """unmasked pixels of a pair of which neither is saturated"""
    return [q for q in range(npix) if a * npix + q not in sat and b * npix + q not in sat]


def meansq(vals, npix, a, b, sat=()):
    s, u = 0.0, usable(sat, npix, a, b)
    for q in u:
        e = vals[a * npix + q] - vals[b * npix + q]
        s = s + e * e
    return s, len(u)


def near(p, nr, nc):
    j, i = p // nc, p % nc
    return [b * nc + a for b in range(max(j - 1, 0), min(j + 2, nr)) for a in range(max(i - 1, 0), min(i + 2, nc))
            if (b, a) != (j, i)]


def rep(i):
    real_env()
    from pyebsdindex import nlpar_cpu as m
    nr, nc, ch, npix, kind = int(i["nr"]), int(i["nc"]), int(i["ch"]), int(i["npix"]), i["kind"]
    P = nr * nc
    sat = [int(x) for x in i.get("sat", [])]
    rng = np.random.default_rng(5)
    for vals in (i["d"], rng.normal(size=P * npix), 3 * rng.normal(size=P * npix), [float(k * k) for k in range(P * npix)]):
        vals = [float(np.float32(float(x))) for x in vals]
        for t in sat:
            vals[t] = 1000.0
        try:
            s = np.asarray(run_sigma(m, np, nr, nc, ch, vals, kind, npix))
        except (IndexError, ValueError, ZeroDivisionError, OverflowError) as e:
            return "%dx%d scan, chunks of %d rows: noise estimate fails with %r" % (nr, nc, ch, e)
        if s.shape != (nr, nc):
            return "noise map of shape %s for a %dx%d scan" % (s.shape, nr, nc)
        for p in range(P):
            ds = [meansq(vals, npix, p, k, sat) for k in near(p, nr, nc)]
            if any(5e-4 < x < 2e-3 for x, _ in ds):
                continue
            ds = [x / n for x, n in ds if x >= 1e-3]
            if not ds:
                continue
            want = math.sqrt(min(ds) / 2.0)
            got = s[p // nc, p % nc]
            if not abs(got - want) <= 1e-3 * (1 + want):
                return "%dx%d scan, chunks of %d rows, values %s: noise of pattern %d is %g, expected %g" % (
                    nr, nc, ch, vals, p, got, want)


def kept(mod, npx, nr, nc, ch, vals):
    """noise map kept by an averaging run, and the one calcsigma gives"""
    d = npx.zeros((nr * nc, 1, 1))
    for p in range(nr * nc):
        d[p, 0, 0] = vals[p]
    mask = npx.ones((1, 1), dtype=npx.uint8)
    _, n, _ = nlpar(mod, npx, d.copy(), nr, nc, mask=mask, chunksize=ch, searchradius=1, lam=0.75, dthresh=0.0,
                    saturation_protect=False, automask=False)
    s, _, _ = nlpar(mod, npx, d.copy(), nr, nc, mask=mask, only_sigma=True, chunksize=nr, saturation_protect=False,
                    automask=False)
    return n.sigma, s


def rep_kept(i):
    real_env()
    from pyebsdindex import nlpar_cpu as m
    nr, nc, ch = int(i["nr"]), int(i["nc"]), int(i["ch"])
    for vals in (i["d"], [float(k * k) for k in range(nr * nc)], np.random.default_rng(2).normal(size=nr * nc)):
        try:
            a, b = kept(m, np, nr, nc, ch, [float(x) for x in vals])
        except (IndexError, ValueError) as e:
            return "%dx%d scan, chunks of %d rows: %r" % (nr, nc, ch, e)
        if not np.allclose(a, b, rtol=1e-3, atol=1e-4):
            return "%dx%d scan, chunks of %d rows: noise map kept after averaging %s, noise %s" % (
                nr, nc, ch, np.asarray(a).ravel().tolist(), np.asarray(b).ravel().tolist())


def rep_reuse(i):
    real_env()
    from pyebsdindex import nlpar_cpu as m
    return reuse(m, np, [float(x) for x in i["d"]], i["case"], lambda a, b: bool(np.allclose(a, b, rtol=1e-3, atol=1e-4)))


CASES = {"wrong number of columns": (2, 5), "wrong number of rows": (5, 1), "reset": "reset", "one value": 0.75}


def reuse(mod, npx, vals, case, same):
    """a noise map that does not fit the scan, or is to be reset, is never used: result as without any"""
    nr, nc = 2, 1
    d = npx.zeros((2, 1, 1))
    for p in range(2):
        d[p, 0, 0] = vals[p]
    kw = dict(chunksize=nr, searchradius=1, lam=0.75, dthresh=0.0, saturation_protect=False, automask=False)
    mask = npx.ones((1, 1), dtype=npx.uint8)
    v = CASES[case]
    sg = None
    if isinstance(v, tuple):
        sg = npx.zeros(v) + 5.0
    elif v == "reset":
        sg = npx.zeros((nr, nc)) + 5.0
        kw["reset_sigma"] = True
    else:
        sg = v
    if v == 0.75:
        want, _, _ = nlpar(mod, npx, d.copy(), nr, nc, mask=mask, sigma=npx.zeros((nr, nc)) + v, **kw)
    else:
        want, _, _ = nlpar(mod, npx, d.copy(), nr, nc, mask=mask, sigma=None, **{k: x for k, x in kw.items() if k != "reset_sigma"})
    try:
        got, _, _ = nlpar(mod, npx, d.copy(), nr, nc, mask=mask, sigma=sg, **kw)
    except (IndexError, ValueError, TypeError, AttributeError) as e:
        return "noise map case '%s': %r" % (case, e)
    if same is None:
        return got, want
    if not same(got, want):
        return "noise map case '%s': %s instead of %s" % (case, got.ravel().tolist(), want.ravel().tolist())


def run():
    snp.MAX_FRESH = snp.EXP_SIMPLE = True
    c = Check("N03", "noise estimate", modname="n03",
              functions=["NLPAR.calcsigma", "NLPAR.sigma_numba", "NLPAR.calcnlpar", "EBSDPatternFile.read_data"],
              bounds="scans up to 5x1, 3x2, 2x3; every chunk size; one and two unmasked pixels plus a masked one; with saturation protection up to three pixels and any values below the saturated ones; noise-map reuse cases on 2x1",
              stubs=["pattern files live in memory"], assumptions=["exact real arithmetic"])
    T = c.twin()
    m = T.load("pyebsdindex.nlpar_cpu")
    confs = [(2, 1, 1), (3, 1, 1), (4, 1, 1), (1, 3, 1), (2, 2, 1), (2, 1, 2), (3, 1, 2)]
    if thorough():
        confs += [(5, 1, 1), (3, 2, 1), (2, 3, 1)]
    for nr, nc, npix in confs:
        for ch in range(1, nr + 1):
            def f(h, nr=nr, nc=nc, ch=ch, npix=npix):
                P = nr * nc
                d = list(reals("d", P * npix))
                h["inputs"].update(nr=nr, nc=nc, ch=ch, npix=npix, kind="plain", d=d)
                for p in range(P):
                    for k in near(p, nr, nc):
                        if k > p:
                            assume(halfsq(d, npix, p, k) >= 0.002)
                            assume(halfsq(d, npix, p, k) <= 1000000)
                s = run_sigma(m, snp.np, nr, nc, ch, d, "plain", npix)
                o = snp.plain(snp.asarray(s)).reshape(-1)
                cl = [Claim("shape", z3.BoolVal(len(o) == P))]
                for p in range(P):
                    v2 = Z(o[p]) * Z(o[p])
                    ns = [Z(halfsq(d, npix, p, k)) for k in near(p, nr, nc)]
                    cl.append(Claim("noise of %d not negative" % p, Z(o[p]) >= 0))
                    # n carries a 1e-12 guard against division by zero
                    eps = z3.RealVal("1/1000000")
                    cl.append(Claim("noise of %d is half the smallest mean difference" % p,
                                    [z3.And([v2 * (2 * npix) <= x * (1 + eps) for x in ns]),
                                     z3.Or([v2 * (2 * npix) >= x * (1 - eps) for x in ns])]))
                return cl
            c.obligation("%dx%d chunk %d pixels %d" % (nr, nc, ch, npix), f, "rep", timeout=20, max_paths=200, budget=120)
    sats = [(2, 1, 1, 2, [0]), (2, 1, 2, 2, [3]), (1, 2, 1, 3, [0, 4]), (3, 1, 3, 2, [2])]
    if thorough():
        sats += [(3, 1, 1, 2, [2]), (2, 2, 1, 2, [0, 7]), (1, 3, 1, 3, [1, 5])]
    for nr, nc, ch, npix, sat in sats:
        def fs(h, nr=nr, nc=nc, ch=ch, npix=npix, sat=sat):
            P = nr * nc
            d = list(reals("d", P * npix))
            for t in range(P * npix):
                if t in sat:
                    d[t] = 1000.0
                else:
                    assume(d[t] >= 0)
                    assume(d[t] <= 900)
            h["inputs"].update(nr=nr, nc=nc, ch=ch, npix=npix, kind="saturation", d=d, sat=sat)
            for p in range(P):
                for k in near(p, nr, nc):
                    if k > p and usable(sat, npix, p, k):
                        assume(meansq(d, npix, p, k, sat)[0] >= 0.002)
            s = run_sigma(m, snp.np, nr, nc, ch, d, "saturation", npix)
            o = snp.plain(snp.asarray(s)).reshape(-1)
            cl = []
            for p in range(P):
                ns = [Z(x) / n for x, n in [meansq(d, npix, p, k, sat) for k in near(p, nr, nc)] if n]
                if not ns:
                    continue
                v2, eps = Z(o[p]) * Z(o[p]), z3.RealVal("1/1000000")
                cl.append(Claim("noise of %d from the unsaturated pixels" % p,
                                [z3.And([v2 * 2 <= x * (1 + eps) for x in ns]), z3.Or([v2 * 2 >= x * (1 - eps) for x in ns])]))
            return cl
        c.obligation("saturated %s of %dx%d chunk %d pixels %d" % (sat, nr, nc, ch, npix), fs, "rep", timeout=20,
                     max_paths=200, budget=120)
    for nr, nc, ch in ((2, 1, 1), (2, 1, 2), (3, 1, 2), (3, 1, 1), (4, 1, 2)):
        def k(h, nr=nr, nc=nc, ch=ch):
            d = list(reals("d", nr * nc))
            h["inputs"].update(nr=nr, nc=nc, ch=ch, d=d)
            for p in range(1, nr * nc):
                assume(d[p] - d[p - 1] >= 0.1)
                assume(d[p] - d[p - 1] <= 1000)
            a, b = kept(m, snp.np, nr, nc, ch, d)
            return [Claim("noise map kept after averaging", eqs(a, b))]
        c.obligation("kept %dx%d chunk %d" % (nr, nc, ch), k, "rep_kept", timeout=20, max_paths=200, budget=120)
    for case in CASES:
        def g(h, case=case):
            d = list(reals("d", 2))
            h["inputs"].update(d=d, case=case)
            assume(d[1] - d[0] >= 0.1)
            assume(d[1] - d[0] <= 1000)
            r = reuse(m, snp.np, d, case, None)
            if isinstance(r, str):
                return [Claim("noise map " + case, z3.BoolVal(False))]
            return [Claim("noise map " + case, eqs(r[0], r[1]))]
        c.obligation("noise map " + case, g, "rep_reuse", timeout=20, max_paths=200, budget=120)
    return c
