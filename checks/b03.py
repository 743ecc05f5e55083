"""B03 detected bands (BandDetect.find_bands on given sinograms)."""
import types
from .common import *
from . import bd

CF = {"a": (5, 6, 3, 0.0), "b": (6, 5, 2, 0.2), "c": (4, 7, 6, 0.0), "d": (5, 5, 1, 0.2)}      # angles, distances, slots, mask


def base(kind, nR, nT, t, zero=0):
    """sinogram[rho][theta]; t in [0, 1]"""
    rng = np.random.default_rng(sum(map(ord, kind)) + 10 * nR + nT)
    s = [[float(rng.integers(1, 60)) for _ in range(nT)] for _ in range(nR)]
    if kind == "swap":                    # two peaks change places in the ranking
        s[1][1] = 62 + 8 * t
        s[nR - 2][nT - 2] = 68 - 4 * t
    elif kind == "edge":                  # a peak wanders to the first angle, whose neighbour is the last one reversed
        s[2][0] = 61 + 3 * t
        s[nR - 3][nT - 1] = 64 - 2 * t
        s[2][1] = 50 + 20 * t
    elif kind == "flat":                  # few peaks: a ramp with a bump
        s = [[float(3 * i + 5 * j) for j in range(nT)] for i in range(nR)]
        s[2][2] = 20 + 40 * t
        s[nR - 2][1] = 30 - 20 * t
    elif kind == "const":                 # nothing but one bump that may vanish
        s = [[7.0 + zero] * nT for i in range(nR)]
        s[3][2] = 7 + 5 * t
    elif kind == "many":
        s = [[(40.0 + 3 * i - 2 * j if (i % 2 == 1 and j % 2 == 1) else 3.0 + i * j % 4) for j in range(nT)] for i in range(nR)]
        s[1][1] = 35 + 12 * t
        s[3][3] = 52 - 20 * t
        s[1][3] = 30 + 19 * t
    return s


def bowl(nR, nT, t, u):
    """a paraboloid with its vertex at (2 + 0.45 u (2t - 1), 2 + 0.4 (2 t - 1))"""
    r0, c0 = 2 + 0.45 * u * (2 * t - 1), 2 + 0.4 * (2 * t - 1)
    return [[90 - 3 * (i - r0) * (i - r0) - 2 * (j - c0) * (j - c0) - 1.5 * (i - r0) * (j - c0) if abs(i - 2) < 2 and abs(j - 2) < 2 else 20.0 + i
             for j in range(nT)] for i in range(nR)], r0, c0


class Plan:
    def __init__(self, npx, sinos):
        self.npx, self.sinos = npx, sinos

    def radon_faster(self, pats, padding=(0, 0), *a, **k):
        n, (p0, p1) = len(pats), (int(padding[0]), int(padding[1]))
        S = self.sinos[0]
        out = self.npx.full([len(S) + 2 * p0, len(S[0]) + 2 * p1, n], -1.0)
        for q in range(n):
            out[p0:p0 + len(S), p1:p1 + len(S[0]), q] = self.npx.array(self.sinos[int(pats[q, 0, 0])])
        return out


def find(m, npx, cfg, sinos):
    nT, nR, nB, mask = cfg
    d = concretely(bd.detector, m, nT, nR, nB, mask)
    d.radonPlan = Plan(npx, sinos)
    mk = np.array(snp.plain(d.rdnmask) if npx is not np else d.rdnmask).astype(bool)
    return d.find_bands(npx.array([[[float(k)] * bd.W] * bd.H for k in range(len(sinos))])), mk


def peaks(S, mask):
    """local maxima (row, column): not below any of the eight neighbours"""
    nR, nT = len(S), len(S[0])
    out = []
    for i in range(nR):
        for j in range(nT):
            if not mask[i][j]:
                continue
            ok = True
            for di in (-1, 0, 1):
                for dj in (-1, 0, 1):
                    a, b = min(max(i + di, 0), nR - 1), j + dj
                    if b < 0 or b >= nT:
                        b, a = b % nT, nR - 1 - a
                    if ok and not S[a][b] <= S[i][j]:
                        ok = False
            if ok:
                out.append((i, j))
    return out


def rep(i):
    from pyebsdindex import band_detect as m
    import scipy.ndimage as nd
    m.scipyndim = types.SimpleNamespace(gaussian_filter=lambda x, *a, **k: -np.asarray(x), grey_dilation=nd.grey_dilation,
                                        binary_erosion=nd.binary_erosion)
    rng = np.random.default_rng(4)
    for tr in range(40):
        cfg = CF[i["cf"]] if tr < 25 else CF["abcd"[tr % 4]]
        nT, nR, nB, mask = cfg
        vert = []
        sinos = []
        for k, kind in enumerate(i["kinds"]):
            t = float(i["t"]) if tr == 0 else rng.uniform(0, 1)
            if kind.startswith("bowl"):
                s, r0, c0 = bowl(nR, nT, t, float(kind[4:]))
                vert.append((r0, c0))
            else:
                s = base(kind, nR, nT, t)
                vert.append(None)
                if tr > 10:
                    s = rng.integers(0, 9, (nR, nT)).astype(float).tolist()
            sinos.append(s)
        try:
            r, mk = find(m, np, cfg, sinos)
        except Exception as e:
            return "band finding fails on %s: %r" % (sinos, e)
        for k, s in enumerate(sinos):
            w = "bands of the sinogram %s (mask %s)" % (s, mk.astype(int).tolist())
            P = peaks(s, mk)
            v = [int(x) for x in r["valid"][k]]
            n = min(nB, len(P))
            if v != [1] * n + [0] * (nB - n):
                return w + ": valid %s with %d peaks" % (v, len(P))
            L = [tuple(int(round(float(x))) for x in r["maxloc"][k][b]) for b in range(n)]
            if any(l not in P for l in L) or len(set(L)) != n:
                return w + ": at %s, peaks %s" % (L, P)
            h = [s[a][b] for a, b in L]
            if any(x < y for x, y in zip(h, h[1:])) or any(s[a][b] > h[-1] for a, b in P if (a, b) not in L):
                return w + ": heights %s at %s, peaks %s" % (h, L, [(p, s[p[0]][p[1]]) for p in P])
            mx = [float(x) for x in r["max"][k][:n]]
            if any(x < y - 1e-6 for x, y in zip(mx, mx[1:])):
                return w + ": strengths %s" % mx
            for b in range(n):
                a = [float(x) for x in r["aveloc"][k][b]]
                if max(abs(a[0] - L[b][0]), abs(a[1] - L[b][1])) > 1:
                    return w + ": position %s of the peak at %s" % (a, L[b])
                if vert[k] and L[b] == (2, 2) and max(abs(a[0] - vert[k][0]), abs(a[1] - vert[k][1])) > 1e-3:
                    return w + ": position %s, vertex %s" % (a, vert[k])


def run():
    c = Check("B03", "detected bands", modname="b03",
              functions=["BandDetect.find_bands", "rdn_conv", "rdn_local_max", "band_label", "band_label_numba"],
              bounds="sinograms of up to 6x7 samples with one real parameter, 1-2 patterns, 1-6 slots, windows of 3x3",
              stubs=["Radon transform: gives the sinogram", "gaussian_filter: the negative identity", "grey_dilation: exact window maximum"],
              assumptions=["exact reals", "small paddings"])
    T = c.twin()
    m = T.load("pyebsdindex.band_detect")
    m.scipyndim = types.SimpleNamespace(gaussian_filter=lambda x, *a, **k: -snp.asarray(x), grey_dilation=bd.grey_dilation,
                                        binary_erosion=bd.ndi.binary_erosion)

    def ob(cf, kinds):
        cfg = CF[cf]
        nT, nR, nB, mask = cfg

        def f(h):
            t = Real("t")
            assume(t >= 0)
            assume(t <= 1)
            h["inputs"] = dict(cf=cf, kinds=kinds, t=t)
            ln = bd.line(t, 0, 1)
            out = []
            with ln:
                sinos, vert = [], []
                for kind in kinds:
                    if kind.startswith("bowl"):
                        s, r0, c0 = bowl(nR, nT, t, float(kind[4:]))
                        vert.append((r0, c0))
                    else:
                        s = base(kind, nR, nT, t)
                        vert.append(None)
                    sinos.append(s)
                r, mk = find(m, snp.np, cfg, sinos)
                for k, s in enumerate(sinos):
                    P = peaks(s, mk)
                    n = min(nB, len(P))
                    out.append(Claim("shape and valid slots of %d" % k, conj(
                        tuple(r.shape) == (len(sinos), nB), *eqs(r["valid"][k], [1] * n + [0] * (nB - n)))))
                    L = [(r["maxloc"][k, b, 0], r["maxloc"][k, b, 1]) for b in range(n)]
                    if any(isinstance(x, Sym) for l in L for x in l):
                        raise sym.Unsupported("symbolic location")
                    L = [(int(round(float(a))), int(round(float(b)))) for a, b in L]
                    out.append(Claim("peaks of %d" % k, all(l in P for l in L) and len(set(L)) == n))
                    g = [s[a][b] for a, b in L if (a, b) in P]
                    ok = all(bool(x >= y) for x, y in zip(g, g[1:])) and (not g or all(bool(s[a][b] <= g[-1]) for a, b in P if (a, b) not in L))
                    out.append(Claim("the strongest of %d first" % k, ok))
                    mx = [r["max"][k, b] for b in range(n)]
                    out.append(Claim("strengths of %d" % k, all(bool(x >= y) for x, y in zip(mx, mx[1:]))))
                    near = []
                    for b in range(n):
                        for q in (0, 1):
                            e = r["aveloc"][k, b, q] - L[b][q]
                            near += [bool(e <= 1), bool(e >= -1)]
                        if vert[k] and L[b] == (2, 2):
                            for q in (0, 1):
                                e = r["aveloc"][k, b, q] - vert[k][q]
                                near += [bool(e <= 1e-6), bool(e >= -1e-6)]
                    out.append(Claim("positions of %d" % k, all(near)))
            return out
        return f
    todo = [("a", ["swap"]), ("b", ["swap", "edge"]), ("c", ["edge"]), ("d", ["swap"]), ("a", ["flat", "edge"]), ("c", ["const"]), ("c", ["many"]),
            ("b", ["many", "const"]), ("a", ["bowl0"]), ("d", ["bowl1"]), ("a", ["bowl-1"]), ("d", ["bowl0.5"]), ("c", ["flat", "swap"])]
    for cf, kinds in todo:
        c.obligation("%s on %d angles, %d distances, %d slots" % (" and ".join(kinds), CF[cf][0], CF[cf][1], CF[cf][2]), ob(cf, kinds), "rep",
                     timeout=25, max_paths=600)
    return c
