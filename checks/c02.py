"""C02 images of scan results (EBSDImage.scalarimage, EBSDImage.IPFcolor.makeipf)."""
from .common import *
from .mapout import DT
import types

F1 = ("iq", "pq", "cm", "fit", "nmatch", "phase")
LAUE = {43: 0, 62: 1, 22: 2}


class Plt:
    """matplotlib stand-in: no rescaling, a colour map with three different channels"""
    def __init__(self, npx):
        self.np = npx
        self.colormaps = self

    def __getitem__(self, name):
        return self.map

    get_cmap = __getitem__

    def Normalize(self, vmin=None, vmax=None, clip=False):
        return lambda x: self.np.asarray(x) * 1.0

    def map(self, x):
        x = self.np.asarray(x)
        return self.np.stack([x, 2 * x + 1, 3 - x, 0 * x + 1], axis=-1)


def chan(v):
    return [v, 2 * v + 1, 3 - v]


def cubic(npx):
    return lambda quats, vector=None: npx.asarray(quats)[:, 1:4] + vector[2]


def hexa(npx):
    return lambda quats, vector=None: npx.asarray(quats)[:, 0:3] * 2 - vector[2]


def data(npx, v, nph, n):
    d = npx.zeros((nph + 1, n), dtype=DT)
    for r in range(nph + 1):
        for p in range(n):
            for k in range(4):
                d["quat"][r, p, k] = v["quat"][r][p][k]
                d["matchattempts"][r, p, k] = v["att"][r][p][k]
            for f in F1:
                d[f][r, p] = v[f][r][p]
    return d


def indexer(laue, nc):
    return types.SimpleNamespace(phaseLib=[types.SimpleNamespace(lauecode=c) for c in laue],
                                 fID=types.SimpleNamespace(nCols=nc, nRows=7, xStep=0.5, yStep=0.5))


def size(n, nc, xs, ys):
    x = nc if xs is None else xs
    return x, (-(-n // x) if ys is None else ys)


def kw(xs, ys):
    k = {}
    if xs is not None:
        k["xsize"] = xs
    if ys is not None:
        k["ysize"] = ys
    return k


def colour(v, laue, p, npx):
    """colour of point p, as the stand-ins have it, per candidate phase"""
    out = []
    for k, c in enumerate(laue):
        q = v["quat"][k][p]
        out.append([q[1] + 1, q[2] + 1, q[3] + 1] if c == 43 else ([2 * q[0] - 1, 2 * q[1] - 1, 2 * q[2] - 1] if c == 62 else [1, 1, 1]))
    return out


def show(m, mi, how, d, ix, xs, ys, npx):
    if how == "ipf":
        return mi.makeipf(d, ix, vector=npx.array([0, 0, 1.0]), **kw(xs, ys))
    if how == "ipfgray":
        return mi.makeipf(d, ix, vector=npx.array([0, 0, 1.0]), graychannel="pq", **kw(xs, ys))
    f, cmap, raw, k = how
    return m.scalarimage(d, ix, datafield=f, cmap=cmap, norescalegray=raw, datafieldindex=k, **kw(xs, ys))


def pixel(v, laue, how, p, nph, npx):
    """expected pixel of point p: list of channels (one for grey), each a number or a list of (condition, value)"""
    fit = v["fit"][nph][p]
    if how in ("ipf", "ipfgray"):
        ph = v["phase"][nph][p]
        cs = colour(v, laue, p, npx)
        g = chan(v["pq"][nph][p]) if how == "ipfgray" else [1, 1, 1]
        return [[(fit > 179, 0)] + [((ph == k) if k else (ph <= 0), cs[k][j] * g[j]) for k in range(len(laue))] for j in range(3)]
    f, cmap, raw, k = how
    x = v["quat"][nph][p][k] if f == "quat" else (v["att"][nph][p][k] if f == "matchattempts" else (-fit if f == "fitinv" else v[f][nph][p]))
    return [x] if raw else chan(x)


def rep(i):
    from pyebsdindex.EBSDImage import scalarimage as m, IPFcolor as mi
    laue, n, nc, nph = [int(x) for x in i["laue"]], int(i["n"]), int(i["nc"]), len(i["laue"])
    xs = None if i["xs"] is None else int(i["xs"])
    ys = None if i["ys"] is None else int(i["ys"])
    how = i["how"] if isinstance(i["how"], str) else tuple(i["how"])
    rng = np.random.default_rng(4)
    old = m.plt, mi.qu2ipf_cubic, mi.qu2ipf_hex
    try:
        m.plt = Plt(np)
        for tr in range(6):
            if tr == 0:
                v = {f: i[f] for f in F1 + ("quat", "att")}
            else:
                v = {f: rng.uniform(0, 90, (nph + 1, n)).round(2).tolist() for f in F1}
                v["phase"] = rng.integers(0, nph, (nph + 1, n)).tolist()
                v["nmatch"] = rng.integers(0, 9, (nph + 1, n)).tolist()
                v["att"] = rng.integers(0, 9, (nph + 1, n, 4)).tolist()
                q = rng.normal(size=(nph + 1, n, 4))
                v["quat"] = (q / np.linalg.norm(q, axis=-1)[..., None]).tolist()
                if tr % 2:
                    for p in range(0, n, 2):
                        v["fit"][nph][p], v["phase"][nph][p] = 180.0, -1
                    v["fit"][nph][n - 1] = 1.0
            mi.qu2ipf_cubic, mi.qu2ipf_hex = (cubic(np), hexa(np)) if tr < 4 else old[1:]
            if tr >= 4 and how == "ipf":
                one = [{43: old[1], 62: old[2]}.get(c, lambda q, vector: np.ones((1, 3))) for c in laue]
            d = data(np, v, nph, n)
            was = d.copy()
            what = "%s of %d points, file columns %d, xsize %s, ysize %s" % (how, n, nc, xs, ys)
            try:
                im = show(m, mi, how, d, indexer(laue, nc), xs, ys, np)
            except Exception as e:
                return what + ": fails with %r" % e
            x, y = size(n, nc, xs, ys)
            ch = 1 if how not in ("ipf", "ipfgray") and how[2] else 3
            if np.shape(im) != ((y, x) if ch == 1 else (y, x, 3)):
                return what + ": shape %s" % (np.shape(im),)
            if was.tobytes() != d.tobytes():
                return what + ": the results were changed"
            for r in range(y):
                for q in range(x):
                    k = r * x + q
                    got = np.atleast_1d(im[r, q]).astype(float)
                    if k >= n:
                        want = [0.0] * ch
                    elif tr >= 4 and how == "ipf":
                        ph = max(int(v["phase"][nph][k]), 0)
                        want = one[ph](d["quat"][ph][k:k + 1], vector=np.array([0, 0, 1.0]))[0] if v["fit"][nph][k] < 179 else [0.0] * 3
                    elif tr >= 4 and how == "ipfgray":
                        continue
                    else:
                        want = [next(b for a, b in e if a) if isinstance(e, list) else e for e in pixel(v, laue, how, k, nph, np)]
                    if not np.allclose(got, np.array(want, dtype=float), rtol=1e-4, atol=1e-4):
                        return what + ": the pixel at row %d, column %d is %s, expected %s" % (r, q, got, want)
    finally:
        m.plt, mi.qu2ipf_cubic, mi.qu2ipf_hex = old


def run():
    c = Check("C02", "images of scan results", modname="c02", functions=["scalarimage", "makeipf"],
              bounds="1-6 points, 1-4 columns, image size taken from the file, from xsize, or from both (smaller and larger than the "
                     "scan); 1-3 phases; any field values, orientations and phases, fits of 0-99, or 180 for any of three points",
              stubs=["matplotlib normalisation and colour map: fixed functions of the value", "qu2ipf_cubic, qu2ipf_hex: fixed functions of the row (C01)"],
              assumptions=["exact reals", "no micron bar"])
    T = c.twin()
    m = T.load("pyebsdindex.EBSDImage.scalarimage")
    mi = T.load("pyebsdindex.EBSDImage.IPFcolor")
    m.plt = Plt(snp.np)
    mi.qu2ipf_cubic, mi.qu2ipf_hex = cubic(snp.np), hexa(snp.np)

    def ob(how, laue, n, nc, xs, ys):
        def f(h):
            nph = len(laue)

            def R(nm, lo, hi, t=Real):
                x = t(nm)
                assume(x >= lo)
                assume(x <= hi)
                return x
            v = {}
            for k, lim in dict(iq=99, pq=99, cm=1).items():
                v[k] = [[R("%s%d_%d" % (k, r, p), 0, lim) for p in range(n)] for r in range(nph + 1)]
            v["fit"] = [[R("f%d_%d" % (r, p), 0, 180) for p in range(n)] for r in range(nph + 1)]
            for row in v["fit"]:
                for p, x in enumerate(row):
                    if p in (0, n // 2, n - 1):
                        assume((x <= 99) | (x >= 180))
                    else:
                        assume(x <= 99)
            if how not in ("ipf", "ipfgray"):
                assume(v["fit"][nph][0] <= 99)           # a scan with no indexed point has no fit scale
            v["phase"] = [[R("ph%d_%d" % (r, p), -1, nph - 1, Int) for p in range(n)] for r in range(nph + 1)]
            v["nmatch"] = [[R("nm%d_%d" % (r, p), 0, 9, Int) for p in range(n)] for r in range(nph + 1)]
            v["quat"] = [[[R("q%d_%d_%d" % (r, p, k), -1, 1) for k in range(4)] for p in range(n)] for r in range(nph + 1)]
            v["att"] = [[[R("a%d_%d_%d" % (r, p, k), 0, 9, Int) for k in range(4)] for p in range(n)] for r in range(nph + 1)]
            h["inputs"] = dict(how=how if isinstance(how, str) else list(how), laue=list(laue), n=n, nc=nc, xs=xs, ys=ys, **v)
            d = data(snp.np, v, nph, n)
            was = {k: snp.plain(d[k]).copy() for k in F1 + ("quat", "matchattempts")}
            im = snp.asarray(show(m, mi, how, d, indexer(laue, nc), xs, ys, snp.np))
            x, y = size(n, nc, xs, ys)
            ch = 1 if how not in ("ipf", "ipfgray") and how[2] else 3
            ok = tuple(im.shape) == ((y, x) if ch == 1 else (y, x, 3))
            out = [Claim("shape", ok), Claim("results untouched", conj(*[eqs(was[k], d[k]) for k in was]))]
            if not ok:
                return out
            a = snp.plain(im).reshape(y, x, ch)
            own, empty = [], []
            for r in range(y):
                for q in range(x):
                    k = r * x + q
                    want = pixel(v, laue, how, k, nph, snp.np) if k < n else [0] * ch
                    for j in range(ch):
                        w = want[j]
                        if isinstance(w, list):
                            e = Z(w[-1][1])
                            for cond, val in reversed(w[:-1]):
                                e = z3.If(tobool(cond), Z(val), e)
                            w = Sym(e)
                        (own if k < n else empty).extend(eqs([a[r, q, j]], [w]))
            out.append(Claim("point k at row k div columns, column k mod columns", conj(*own)))
            if empty:
                out.append(Claim("pixels without a point are empty", conj(*empty)))
            return out
        return f
    sizes = [(4, 2, None, None), (5, 3, None, None), (6, 2, 3, None), (5, 2, 4, 2), (5, 4, 2, 2), (3, 2, 2, 3), (1, 1, None, None), (1, 3, None, None),
             (2, 1, None, None), (2, 4, None, None), (4, 2, None, 1), (4, 3, 2, None), (5, 4, None, None)]
    laues = [(43,), (43, 62), (62, 22, 43), (62,), (43, 43, 62)]
    hows = [("pq", "gray", True, 0), ("fit", "viridis", False, 0), ("phase", "viridis", False, 0), ("fitinv", "gray", False, 0),
            ("nmatch", "viridis", True, 0), ("quat", "gray", True, 2), ("matchattempts", "viridis", False, 1), ("cm", "viridis", False, 0)]
    for k, s in enumerate(sizes):
        for how in ["ipf", hows[k % len(hows)], hows[(k + 3) % len(hows)]] + (["ipfgray"] if k in (1, 3, 5, 8) else []):
            nm = how if isinstance(how, str) else "%s %s%s" % (how[0], how[1], " as is" if how[2] else "")
            c.obligation("%s: %d points, %d columns, size %s x %s" % (nm, s[0], s[1], s[2], s[3]), ob(how, laues[k % 5], *s), "rep", timeout=30, max_paths=600)
    return c
