"""P02 pattern-centre optimisation and its surroundings (optimize, optimize_pso); the harness is shared with P03."""
from .common import *

W, H, DEL = 0, 1, 2
VENDORS = ("EDAX", "OXFORD", "BRUKER", "KIKUCHIPY", "EMSOFT")
NB = 4


class Plan:
    pass


class Bands:
    """detected bands of some patterns"""

    def __init__(self, ids):
        self.ids = list(ids)

    shape = property(lambda s: (len(s.ids), NB))

    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = k[0]
        return Bands([self.ids[k]] if isinstance(k, (int, np.integer)) else self.ids[k])

    def reshape(self, *a):
        return self

    def copy(self):
        return Bands(self.ids)

    def __len__(self):
        return len(self.ids)


class Norms:
    def __init__(self, ids, PC, vendor):
        self.ids, self.PC, self.vendor = ids, PC, vendor


class Indexer:
    """an indexer whose results are given by fitf(pattern, PC, vendor) -> (fit, nmatch)"""

    def __init__(self, npx, vendor, PC, dims, ids, fitf):
        self.vendor, self.PC, self.npx, self.fitf = vendor, PC, npx, fitf
        self.calls = []
        p = self.bandDetectPlan = Plan()
        p.patDim, p.nBands = dims, NB
        p.find_bands = lambda pats, **k: Bands(ids)
        p.radonPlan = Plan()
        p.radonPlan.radon2pole = self.pole

    def pole(self, banddat, PC=None, vendor="EDAX"):
        pc = [PC[k] for k in range(3)] if len(PC) == 3 else [PC[k] for k in range(len(PC))]
        self.calls.append((list(banddat.ids), pc, vendor))
        return Norms(list(banddat.ids), pc, vendor)

    def _indexbandsphase(self, banddat, bandnorm, **k):
        n = len(bandnorm.ids)
        r = self.npx.zeros((2, n), dtype=[("fit", "f8"), ("nmatch", "i8"), ("phase", "i8")])
        for q, i in enumerate(bandnorm.ids):
            f, m = self.fitf(i, bandnorm.PC, bandnorm.vendor)
            r["fit"][:, q] = f
            r["nmatch"][:, q] = m
        return r, banddat


class FakeOpt:
    """scipy.optimize: minimize looks at the start and somewhere else and returns any point"""

    def __init__(self, npx, points):
        self.npx, self.points, self.n = npx, points, 0

    def minimize(self, fun, x0, args=(), **k):
        pt = self.points[self.n]
        self.n += 1
        costs = [fun(self.npx.array([x0[0], x0[1], x0[2]]), *args), fun(self.npx.array(list(pt)), *args)]
        x = self.npx.array(list(pt))
        return {"x": x, "fun": costs[1], "success": True}


class FakePSO:
    def __init__(self, npx, points):
        self.npx, self.points, self.n = npx, points, 0

    def __call__(self, *a, **k):
        return self

    def optimize(self, function, start=None, bounds=None, niter=50, verbose=1, **kw):
        self.bounds = bounds
        pt = self.points[self.n]
        self.n += 1
        function(self.npx.array([start[0], start[1], start[2]]), **kw)
        c = function(self.npx.array(list(pt)), **kw)
        return c[0], self.npx.array(list(pt))


def where(pc, vendor, dims, delta):
    """detector point (pixels from the bottom left, distance in pixels) of a pattern centre"""
    h, w = dims
    mn = h if h <= w else w
    if vendor == "EDAX":
        return [pc[0] * w, pc[1] * h, pc[2] * mn]
    if vendor == "OXFORD":
        return [pc[0] * w, pc[1] * w, pc[2] * w]
    if vendor in ("BRUKER", "KIKUCHIPY"):
        return [pc[0] * w, h - pc[1] * h, pc[2] * h]
    return [w / 2 - pc[0], h / 2 + pc[1], pc[2] / delta]


def drive(m, npx, cfg, pc, pc0, dims, points, ids, fitf):
    """-> (result, calls, indexer, PC0 object)"""
    ix = Indexer(npx, cfg["vendor"], pc, dims, ids, fitf)
    m.opt = FakeOpt(npx, points)
    kw = dict(batch=cfg["batch"], PC0=pc0)
    if cfg["pso"]:
        m.PSOOpt = FakePSO(npx, points)
        r = m.optimize_pso(None, ix, verbose=0, **kw)
    else:
        r = m.optimize(None, ix, **kw)
    return r, ix


def near(a, b):
    return all(abs(float(x) - float(y)) <= 1e-6 * (1 + abs(float(y))) for x, y in zip(a, b))


def rep(i):
    from pyebsdindex import pcopt as m
    cfg = dict(vendor=i["vendor"], batch=bool(i["batch"]), pso=bool(i["pso"]))
    n = int(i["n"])
    emsoft = cfg["vendor"] == "EMSOFT"
    for tr in range(2):
        dims = tuple(float(x) for x in i["dims"]) if tr == 0 else (48.0, 60.0)
        L = 4 if emsoft else 3
        base = [5.0, -3.0, 900.0, 20.0][:L] if emsoft else [.5, .6, .7]
        pc = np.array([float(x) for x in i["pc"]] if tr == 0 else base)
        start = [float(x) for x in i["pc0"]] if tr == 0 and i["pc0"] else list(base)
        pc0 = None if i["form"] == "none" else (start if i["form"] == "list" else np.array(start))
        points = [[.4 + .1 * k, .5 + .05 * k, .8 - .05 * k] for k in range(n)]
        was, was0 = pc.copy(), None if pc0 is None else np.array(pc0, dtype=float).copy()
        try:
            r, ix = drive(m, np, cfg, pc, pc0, dims, points, list(range(n)), lambda k, P, v: (1.0, NB))
        except Exception as e:
            return "optimising fails: %r" % e
        if ix.vendor != cfg["vendor"] or not np.array_equal(np.asarray(ix.PC, float), was):
            return "the indexer's settings %s %s became %s %s" % (cfg["vendor"], was, ix.vendor, ix.PC)
        if pc0 is not None and not np.array_equal(np.asarray(pc0, float), was0):
            return "the starting guess %s became %s" % (was0, pc0)
        r = np.asarray(r)
        rows = n if cfg["batch"] else 1
        if r.shape != ((n, L) if cfg["batch"] else (L,)):
            return "result of shape %s" % (r.shape,)
        r = r.reshape(rows, L)
        d = pc[3] if emsoft else 1
        s = was if pc0 is None else was0
        for q in range(rows):
            ids0, x0, v0 = ix.calls[2 * q]
            ids1, x1, v1 = ix.calls[2 * q + 1]
            own = [q] if cfg["batch"] else list(range(n))
            if ids0 != own or ids1 != own:
                return "optimum %d uses patterns %s" % (q, ids0)
            if not near(where(x0, v0, dims, d), where(s, cfg["vendor"], dims, d)):
                return "the search starts at %s (%s), the guess is %s (%s), detector %s" % (x0, v0, s, cfg["vendor"], dims)
            if not near(where(r[q], cfg["vendor"], dims, d), where(x1, v1, dims, d)):
                return "the optimum %s (%s) is returned as %s (%s), detector %s" % (x1, v1, r[q], cfg["vendor"], dims)
            if emsoft and r[q][3] != was[3]:
                return "pixel size %s became %s" % (was[3], r[q][3])


def run():
    c = Check("P02", "pattern-centre optimisation leaves its inputs alone", modname="p02",
              functions=["pcopt.optimize", "pcopt.optimize_pso", "pcopt._optfunction"],
              bounds="1-2 patterns, both optimisers, batch or not, five vendors, guesses given as array, list or not at all, all "
                     "pattern centres and pattern sizes",
              stubs=["scipy.optimize.minimize, PSOOpt: call the objective at the start and at one other point, return that point",
                     "indexer: band detection, radon2pole and indexing record how they are called"],
              assumptions=["exact reals; the indexer's pixel size is that of the guess"])
    T = c.twin()
    m = T.load("pyebsdindex.pcopt")

    def ob(vendor, pso, batch, form, n):
        cfg = dict(vendor=vendor, pso=pso, batch=batch)

        def f(h):
            emsoft = vendor == "EMSOFT"
            L = 4 if emsoft else 3
            dims = list(reals("dim", 2))
            for x in dims:
                assume(x >= 8)
                assume(x <= 2000)
            pc = reals("pc", L)
            box(pc, 5000 if emsoft else 2)
            if emsoft:
                assume(pc[3] >= 1)
            start = [Real("g%d" % k) for k in range(L)]
            for x in start:
                assume(x <= 5000)
                assume(x >= -5000)
            if emsoft:
                start[3] = pc[3]
            h["inputs"] = dict(cfg, dims=dims, pc=[pc[k] for k in range(L)], pc0=[] if form == "none" else start, form=form, n=n)
            pc0 = None if form == "none" else (list(start) if form == "list" else snp.np.array(start))
            was = [pc[k] for k in range(L)]
            was0 = was if pc0 is None else list(start)
            points = [list(reals("x%d" % k, 3)) for k in range(n)]
            r, ix = drive(m, snp.np, cfg, pc, pc0, tuple(dims), points, list(range(n)), lambda k, P, v: (1.0, NB))
            out = [Claim("settings of the indexer", conj(ix.vendor == vendor, len(ix.PC) == L, *eqs(list(ix.PC), was)))]
            if pc0 is not None:
                out.append(Claim("starting guess", conj(len(pc0) == L, *eqs([pc0[k] for k in range(len(pc0))], was0))))
            rows = n if batch else 1
            ok = tuple(r.shape) == ((n, L) if batch else (L,))
            out.append(Claim("shape", ok))
            if not ok:
                return out
            d = was[3] if emsoft else 1
            for q in range(rows):
                o = (lambda k: r[q, k]) if batch else (lambda k: r[k])
                ids0, x0, v0 = ix.calls[2 * q]
                ids1, x1, v1 = ix.calls[2 * q + 1]
                own = [q] if batch else list(range(n))
                out.append(Claim("own patterns", ids0 == own and ids1 == own))
                out.append(Claim("start", conj(*eqs(where(x0, v0, dims, d), where(was0, vendor, dims, d)))))
                out.append(Claim("result", conj(*eqs(where([o(k) for k in range(L)], vendor, dims, d), where(x1, v1, dims, d)))))
                if emsoft:
                    out.append(Claim("pixel size", conj(*eqs([o(3)], [was[3]]))))
            return out
        return f

    for vendor in VENDORS:
        for pso in (False, True):
            for batch in (False, True):
                for form in ("none", "array", "list"):
                    if vendor not in ("EDAX", "EMSOFT") and (form != "array"):
                        continue
                    for n in ((1, 2) if vendor == "EMSOFT" else (2,)):
                        c.obligation("%s %s%s guess %s %d patterns" % (vendor, "swarm" if pso else "simplex", " batch" if batch else "",
                                     form, n), ob(vendor, pso, batch, form, n), "rep", timeout=30)
    return c
