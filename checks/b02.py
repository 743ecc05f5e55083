"""B02 band positions to plane normals (Radon.radon2pole)."""
from fractions import Fraction
from .common import *
from .p02 import where, VENDORS

BD = [("aveloc", "f8", (2,)), ("theta", "f8"), ("rho", "f8")]


def plan(m, H, W, nT, nR):
    return m.Radon(imageDim=np.array([H, W]), nTheta=nT, nRho=nR, rhoMax=float(nR) / 2)


def bands(npx, pos):
    """structured bands of (pattern, band) -> (rho position, theta position)"""
    bd = npx.zeros((len(pos), len(pos[0])), dtype=BD)
    for q, row in enumerate(pos):
        for b, (r, t) in enumerate(row):
            bd["aveloc"][q, b, 0] = r
            bd["aveloc"][q, b, 1] = t
    return bd


def rep(i):
    from pyebsdindex import radon_fast as m
    H, W, nT, nR = (int(x) for x in i["geo"])
    p = plan(m, H, W, nT, nR)
    rng = np.random.default_rng(1)
    vendor = i["vendor"]
    L = 4 if vendor == "EMSOFT" else 3
    nP, nB = int(i["np"]), int(i["nb"])
    form = i["form"]
    for tr in range(60):
        if tr == 0:
            pc = np.array([[float(x) for x in r] for r in i["pc"]])
            pos = [[(float(a), float(b)) for a, b in r] for r in i["pos"]]
        else:
            pc = rng.uniform(.1, .9, (nP if form == "rows" else 1, L))
            if vendor == "EMSOFT":
                pc[:, :3] = pc[:, :3] * [W, H, 4000.0] - [W / 2, H / 2, -3000.0]
                pc[:, 3] = 20.0 + 60 * pc[:, 3]
            pos = [[(rng.uniform(0, nR - 1), rng.uniform(0, nT - 1)) for b in range(nB)] for q in range(nP)]
            if tr % 3 == 0:
                pos = [[(float(round(a)), float(round(b))) for a, b in r] for r in pos]
        arg = pc.astype((float, np.float32)[tr % 2]) if form == "rows" else (pc[0] if form == "vector" else [list(pc[0])])
        was = np.array(arg, dtype=float)
        try:
            n = p.radon2pole(bands(np, pos), PC=arg, vendor=vendor)
        except Exception as e:
            return "radon2pole fails: %r" % e
        if not np.array_equal(np.array(arg, dtype=float), was):
            return "the pattern centre was changed from %s to %s" % (was, arg)
        if np.shape(n) != (nP, nB, 3):
            return "shape %s for %d patterns of %d bands" % (np.shape(n), nP, nB)
        for q in range(nP):
            c = pc[q if form == "rows" else 0]
            S = where(c[:3], vendor, (H, W), c[3] if L == 4 else None)
            for b in range(nB):
                v = np.asarray(n[q, b], dtype=float)
                w = "normal %s of the band at %s, pattern centre %s (%s)" % (v, pos[q][b], c, vendor)
                if not abs(v @ v - 1) < 1e-4:
                    return w + ": length %s" % np.sqrt(v @ v)
                th = np.interp(pos[q][b][1], np.arange(nT), 180.0 * np.arange(nT) / nT) * np.pi / 180
                d = 2 * p.rhoMax / nR
                rho = pos[q][b][0] * d - (p.rhoMax - d)
                for s in (-1.0, 0.0, 2.0):
                    P = np.array([W / 2 + rho * np.cos(th) - s * np.sin(th), H / 2 - rho * np.sin(th) - s * np.cos(th), 0])
                    u = P - np.array([S[0], S[1], -S[2]])
                    if abs(v @ u) > 2e-3 * np.sqrt(u @ u):
                        return w + ": not perpendicular to the direction %s from the source to the line" % u


def run():
    c = Check("B02", "band positions to normals", modname="b02", functions=["Radon.radon2pole", "Radon.radon_plan_setup"],
              bounds="1-2 patterns of 1-2 bands, detectors of 4x4, 4x6, 6x4 and 3x5 pixels, five vendors, one centre or one per pattern; "
                     "any centre, any position along rho, any angle in each theta step",
              stubs=["none"], assumptions=["exact reals", "the source does not lie on the detector (distance at least 0.01)",
                                           "rho steps of one pixel"])
    T = c.twin()
    m = T.load("pyebsdindex.radon_fast")

    def ob(geo, vendor, form, nP, nB, kind):
        H, W, nT, nR = geo

        def f(h):
            snp.EXACT_SQRT = True
            sym.DIVZERO = False
            L = 4 if vendor == "EMSOFT" else 3
            p = concretely(plan, m, H, W, nT, nR)
            rows = nP if form == "rows" else 1
            pc = [[Real("pc%d%d" % (q, k)) for k in range(L)] for q in range(rows)]
            big = 30000.0 if vendor == "EMSOFT" else 3.0
            for r in pc:
                for k in range(2):
                    assume(r[k] >= -big)
                    assume(r[k] <= big)
                assume(r[2] >= 0.01)
                assume(r[2] <= big)
                if L == 4:
                    assume(r[3] >= 1)
                    assume(r[3] <= 100)
            pos, ref = [], []
            for q in range(nP):
                pos.append([])
                ref.append([])
                for b in range(nB):
                    k = (q * nB + b) % (nR - 1)
                    x = Real("x%d%d" % (q, b))
                    assume(x > k if k else x >= 0)
                    assume(x <= k + 1)
                    t = (2 * q + b + kind) % nT
                    if kind % 2 == 0:                 # any angle in a step of the theta axis
                        t = t % (nT - 1)
                        a = snp.angle("th%d%d" % (q, b), 1)
                        ts = a * 180.0 / snp.np.pi * (Fraction(nT, 180))
                        assume(ts > t if t else ts >= 0)
                        assume(ts <= t + 1)
                        co, si = snp.np.cos(a), snp.np.sin(a)
                    else:
                        t = t // 2 * 2 if nT == 8 else t
                        ts = float(t)
                        a = snp.np.pi * Fraction(t, nT)
                        co, si = snp.np.cos(a), snp.np.sin(a)
                    pos[-1].append((x, ts))
                    ref[-1].append((x, co, si))
            h["inputs"] = dict(geo=list(geo), vendor=vendor, form=form, np=nP, nb=nB, pc=pc, pos=[[list(u) for u in r] for r in pos])
            arg = snp.np.array(pc, dtype=np.float32 if kind else float) if form == "rows" else (snp.np.array(pc[0]) if form == "vector" else [list(pc[0])])
            n = p.radon2pole(bands(snp.np, pos), PC=arg, vendor=vendor)
            out = [Claim("shape", tuple(n.shape) == (nP, nB, 3))]
            now = arg if form == "rows" else ([arg] if form == "vector" else arg)
            for q in range(rows):
                out.append(Claim("the caller's centre", conj(*eqs([now[q][k] for k in range(L)], pc[q]))))
            d = Fraction(2) * lift_frac(p.rhoMax) / nR
            for q in range(nP):
                cc = pc[q if form == "rows" else 0]
                S = where(cc[:3], vendor, (Fraction(H), Fraction(W)), cc[3] if L == 4 else None)
                for b in range(nB):
                    x, co, si = ref[q][b]
                    v = [n[q, b, k] for k in range(3)]
                    out.append(Claim("unit length %d %d" % (q, b), poly_eq(sumsq(v), z3.RealVal(1))))
                    rho = x * d - (lift_frac(p.rhoMax) - d)
                    for s in (0, 1):
                        P = [Z(rho * co - s * si) + z3.Q(W, 2), Z(-1 * (rho * si) - s * co) + z3.Q(H, 2)]
                        e = Z(v[0]) * (P[0] - Z(S[0])) + Z(v[1]) * (P[1] - Z(S[1])) + Z(v[2]) * Z(S[2])
                        out.append(Claim("perpendicular %d %d %d" % (q, b, s), poly_eq(e, z3.RealVal(0))))
            return out
        return f
    geos = [(4, 4, 6, 5), (4, 6, 6, 6), (6, 4, 8, 4), (3, 5, 3, 5)]
    for vi, vendor in enumerate(VENDORS):
        for gi, geo in enumerate(geos):
            for form in ("vector", "rows", "list"):
                for kind in (0, 1):
                    if not thorough() and (vi + gi + kind) % 2 and form != "rows":
                        continue
                    nP, nB = (2, 1) if form == "rows" else ((1, 2) if kind else (2, 1))
                    c.obligation("%s %dx%d pixels, centre as %s, %d patterns %d bands, theta %s" % (
                        vendor, geo[0], geo[1], form, nP, nB, ("any", "of the grid")[kind]),
                        ob(geo, vendor, form, nP, nB, kind), "rep", timeout=25)
    return c


def lift_frac(x):
    return Fraction(float(x))
