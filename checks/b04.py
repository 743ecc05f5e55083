"""B04 band finding is independent of chunking and of the other patterns (BandDetect.find_bands)."""
from .common import *
from . import bd

CH = [-1, 1, 2, 3]


def rows(r, k):
    """flat list of the band values of pattern k"""
    out = []
    for f in bd.FIELDS:
        out += list(snp.plain(snp.asarray(r[f][k])).reshape(-1))
    return out


def stack(npx, which, t, tk):
    """the patterns of the stack; pattern tk depends on t"""
    p = []
    for k, b in enumerate(which):
        img = bd.BASE[b].tolist()
        if k == tk:
            img[2][2] = img[2][2] + t * 30
            img[3][1] = img[3][1] - t * 20
        p.append(img)
    return npx.array(p)


def rep(i):
    from pyebsdindex import band_detect as m
    which, tk, cfg = [int(x) for x in i["which"]], int(i["tk"]), i["cfg"]
    nT, nR, nB, mask = int(cfg[0]), int(cfg[1]), int(cfg[2]), float(cfg[3])
    rng = np.random.default_rng(2)
    for tr in range(12):
        d = bd.detector(m, nT, nR, nB, mask)
        if tr >= 6:                               # as users run it
            d = m.BandDetect(patDim=np.array([20, 24]), nTheta=36, nRho=20, nBands=nB)
        if tr < 6:
            pats = stack(np, which, float(i["t"]) if tr == 0 else rng.uniform(0, 1), tk).astype(np.float32)
            if tr > 2:
                pats = rng.uniform(0, 50, pats.shape).astype(np.float32)
        else:
            pats = rng.uniform(0, 50, (len(which), 20, 24)).astype(np.float32) * (1 + np.arange(len(which))).reshape(-1, 1, 1)
        if i["back"]:
            d.backgroundsub = rng.uniform(0, 9, pats.shape[1:]).astype(np.float32)
        for ch in [int(i["chunk"])] + CH:
            was = pats.copy()
            try:
                alone = [d.find_bands(pats[k:k + 1].copy()) for k in range(len(which))]
                r = d.find_bands(pats, chunksize=ch)
                flat = d.find_bands(pats[0].copy())
            except Exception as e:
                return "band finding fails (chunk %d, %d patterns): %r" % (ch, len(which), e)
            if not np.array_equal(was, pats):
                return "the patterns were changed"
            if np.shape(r) != (len(which), nB) or np.shape(flat) != (1, nB):
                return "shape %s for %d patterns" % (np.shape(r), len(which))
            for k in range(len(which)):
                for f in bd.FIELDS:
                    if not np.allclose(r[f][k].astype(float), alone[k][f][0].astype(float), rtol=1e-4, atol=1e-4):
                        return "%s of pattern %d of %d in chunks of %d is %s, alone %s" % (f, k, len(which), ch, r[f][k], alone[k][f][0])
            for f in bd.FIELDS:
                if not np.allclose(flat[f], alone[0][f], rtol=1e-4, atol=1e-4):
                    return "%s of a single two-dimensional pattern is %s, in a stack %s" % (f, flat[f], alone[0][f])


def run():
    c = Check("B04", "band finding and chunks", modname="b04",
              functions=["BandDetect.find_bands", "rdn_conv", "rdn_local_max", "band_label", "band_label_numba", "Radon.radon_faster"],
              bounds="stacks of 1-4 patterns of 5x5 pixels, chunks of 1-4 or one chunk, 4-6 angles and 4-5 distances, 2-4 bands; "
                     "one pattern of the stack varies along a line of patterns, the others are fixed",
              stubs=["gaussian_filter: three-point stencil", "grey_dilation: exact window maximum"], assumptions=["exact reals", "small paddings"])
    T = c.twin(stubs={"scipy.ndimage": bd.ndi}) if False else c.twin()
    m = T.load("pyebsdindex.band_detect")
    m.scipyndim = bd.ndi

    def ob(cfg, which, tk, chunk, back):
        def f(h):
            d = concretely(bd.detector, m, *cfg)
            if back:
                d.backgroundsub = snp.np.array(bd.BASE[7].tolist()) / 8
            t = Real("t")
            assume(t >= 0)
            assume(t <= 1)
            h["inputs"] = dict(cfg=list(cfg), which=which, tk=tk, chunk=chunk, t=t, back=back)
            pats = stack(snp.np, which, t, tk)
            was = pats.copy()
            ln = bd.line(t, 0, 1)
            with ln:
                r = d.find_bands(pats, chunksize=chunk)
                ones = [d.find_bands(was[k:k + 1].copy() if k % 2 else was[k].copy()) for k in range(len(which))]
            out = [Claim("patterns untouched", conj(*eqs(pats, was))), Claim("shape", tuple(r.shape) == (len(which), cfg[2]))]
            for k in range(len(which)):
                e = [bd.same(a, b, Z(t)) for a, b in zip(rows(r, k), rows(ones[k], 0))]
                ln.pin(e)
                out.append(Claim("bands of pattern %d" % k, conj(*e)))
            return out
        return f
    cfgs = [(4, 4, 3, 0.0), (6, 5, 2, 0.2), (4, 5, 4, -0.2)]
    todo = [(0, [0, 1, 2], 1, -1, False), (0, [0, 1, 2], 1, 2, False), (1, [3, 0, 1], 2, 2, True), (2, [2, 4, 5, 0], 0, 3, False),
            (0, [5, 1, 1], 1, 1, False), (2, [0, 3], 0, 5, True), (0, [6], 0, 1, True), (1, [6, 5, 2, 3], 3, 2, False)]
    for n, (ci, which, tk, ch, back) in enumerate(todo):
        c.obligation("%d patterns in chunks of %d, %d angles%s, pattern %d varies" % (len(which), ch, cfgs[ci][0], ", background" if back else "", tk),
                     ob(cfgs[ci], which, tk, ch, back), "rep", timeout=25, max_paths=400)
    return c
