"""B01 Radon transform of patterns (Radon.radon_faster, Radon.radon_fast)."""
from .common import *


def lines(H, W, nT, nR, rhoMax, mask):
    """pixels of every line: for each (rho, theta) the list of (row, col), or None where a pixel is (nearly) halfway"""
    out = {}
    d = 2.0 * rhoMax / nR
    for j in range(nT):
        th = np.pi * j / nT
        c, s = np.cos(th), np.sin(th)
        for i in range(nR):
            rho = i * d - (rhoMax - d)
            pix, tie = [], False
            for r in range(H):
                for q in range(W):
                    x, y = q - (W - 1) / 2, r - (H - 1) / 2
                    off = abs((x * c + y * s - rho) / max(abs(c), abs(s)))     # along the axis the line crosses most steeply
                    if abs(off - 0.5) < 1e-3:
                        tie = True
                    if off < 0.5 and mask[r][q]:
                        pix.append((r, q))
            out[i, j] = None if tie else pix
    return out


GEO = {"3x3": (3, 3, 4, 5, 2.13), "3x4": (3, 4, 5, 4, 2.46), "4x2": (4, 2, 3, 6, 2.31), "2x3": (2, 3, 6, 3, 1.71)}
MASKS = {"none": None, "corner": [(0, 0)], "row": "row", "most": "most"}


def maskof(name, H, W):
    m = [[1] * W for _ in range(H)]
    if name == "corner":
        m[0][0] = m[H - 1][0] = 0
    if name == "row":
        m[1] = [0] * W
    if name == "most":
        m = [[int((r + q) == 1) for q in range(W)] for r in range(H)]
    return m


def plan(m, geo, mask, miss):
    H, W, nT, nR, rm = GEO[geo]
    a = dict(missingval=miss) if miss is not None else {}
    if mask != "none":
        a["mask"] = np.array(maskof(mask, H, W))
    return m.Radon(imageDim=np.array([H, W]), nTheta=nT, nRho=nR, rhoMax=rm, **a)


def call(p, npx, how, img, pad, fix, bg):
    a = dict(padding=npx.array(list(pad)), fixArtifacts=fix)
    if bg is not None:
        a["background"] = bg
    if how == "sum":
        return p.radon_faster(img, normalization=False, **a)
    return (p.radon_faster if how == "faster" else p.radon_fast)(img, **a)


def reference(geo, mask, miss, how, pix, pad, fix, bg, zero=0.0):
    """(row, col, pattern) -> value, None where undetermined; pix[k][r][c]"""
    H, W, nT, nR, rm = GEO[geo]
    L = lines(H, W, nT, nR, rm, maskof(mask, H, W))
    out = {}
    miss = -1.0 if miss is None else miss
    for k in range(len(pix)):
        for i in range(nR + 2 * pad[0]):
            for j in range(nT + 2 * pad[1]):
                a, b = i - pad[0], j - pad[1]
                if fix and b == 0:
                    b = 1
                elif fix and b == nT - 1:
                    b = nT - 2
                if not (0 <= a < nR and 0 <= b < nT):
                    out[i, j, k] = miss
                    continue
                l = L[a, b]
                if l is None:
                    out[i, j, k] = None
                elif not l:
                    out[i, j, k] = miss
                else:
                    v = zero
                    for r, c in l:
                        v = v + pix[k][r][c] - (bg[r][c] if bg is not None else 0)
                    out[i, j, k] = v if how == "sum" else v / len(l)
    return out


def rep(i):
    from pyebsdindex import radon_fast as m
    geo, mask, how, pad, fix = i["geo"], i["mask"], i["how"], [int(x) for x in i["pad"]], bool(i["fix"])
    miss = None if i["miss"] is None else float(i["miss"])
    H, W, nT, nR, rm = GEO[geo]
    n = int(i["n"])
    rng = np.random.default_rng(1)
    p = plan(m, geo, mask, miss)
    for tr in range(10):
        pix = np.array([float(x) for x in i["pix"]]) if tr == 0 else rng.uniform(0, 9, n * H * W)
        pix = pix.reshape(n, H, W).astype(np.float32)
        bg = None
        if i["bg"]:
            bg = (np.array([float(x) for x in i["bg"]]) if tr == 0 else rng.uniform(0, 9, H * W)).reshape(H, W).astype(np.float32)
        img = pix[0].copy() if i["flat"] else pix.copy()
        w = "%s, %d patterns of %dx%d%s%s" % (how, n, H, W, ", one image" if i["flat"] else "", ", background" if bg is not None else "")
        was = img.copy()
        try:
            r = call(p, np, how, img, pad, fix, bg)
        except Exception as e:
            return w + " fails: %r" % e
        if not np.array_equal(was, img):
            return w + ": the patterns were changed"
        if np.shape(r) != (nR + 2 * pad[0], nT + 2 * pad[1], n):
            return w + ": shape %s" % (np.shape(r),)
        for k, v in reference(geo, mask, miss, how, pix.astype(float), pad, fix, bg).items():
            if v is not None and not abs(float(r[k]) - v) < 1e-3:
                return w + ": value at rho %d theta %d pattern %d (padding %s, fixArtifacts %s, mask %s, missing value %s) is %s, " \
                           "the mean of the line is %s" % (k + (pad, fix, mask, miss, r[k], v))


def run():
    c = Check("B01", "Radon transform", modname="b01",
              functions=["Radon.radon_plan_setup", "Radon.masksetup", "Radon.radon_faster", "Radon.rdn_loops", "Radon.radon_fast"],
              bounds="1-3 patterns of 3x3, 3x4, 4x2 and 2x3 pixels, 3-6 angles, 3-6 distances, four masks, padding up to 2; any pixel and background value",
              stubs=["none"], assumptions=["exact reals, pixel values up to 10", "a line with a pixel exactly halfway is left out"])
    T = c.twin()
    m = T.load("pyebsdindex.radon_fast")

    def ob(geo, mask, how, n, pad, fix, withbg, miss, flat):
        H, W, nT, nR, rm = GEO[geo]

        def f(h):
            p = concretely(plan, m, geo, mask, miss)
            img = reals("p", n, H, W)
            pix = [[[img[k, r, q] for q in range(W)] for r in range(H)] for k in range(n)]
            box(img, 10)
            bg = None
            if withbg:
                bg = reals("b", H, W)
                box(bg, 10)
            h["inputs"] = dict(geo=geo, mask=mask, how=how, n=n, pad=list(pad), fix=fix, miss=miss, flat=flat,
                               pix=[x for a in pix for b in a for x in b], bg=[bg[r, q] for r in range(H) for q in range(W)] if withbg else [])
            a = img[0] if flat else img
            r = call(p, snp.np, how, a, pad, fix, bg)
            out = [Claim("patterns untouched", conj(*eqs(img, snp.np.array(pix)))),
                   Claim("shape", tuple(r.shape) == (nR + 2 * pad[0], nT + 2 * pad[1], n))]
            B = [[bg[x, y] for y in range(W)] for x in range(H)] if withbg else None
            per = {}
            for k, v in reference(geo, mask, miss, how, pix, pad, fix, B, 0).items():
                if v is None:
                    continue
                e = within(r[k], v, 1e-6) if how == "fast" else poly_eq(Z(r[k]), Z(v))
                per.setdefault(k[2], []).append(e)
            for k in per:
                out.append(Claim("values of pattern %d" % k, conj(*per[k])))
            return out
        return f
    T_ = thorough()
    for how in ("faster", "fast", "sum"):
        for gi, geo in enumerate(GEO):
            for mi, mask in enumerate(MASKS):
                for vi, (n, pad, fix, bgd, miss, flat) in enumerate([
                        (1, (0, 0), False, False, None, True), (2, (1, 2), False, False, None, False),
                        (2, (0, 0), True, True, None, False), (3, (2, 1), True, False, 5.0, False), (1, (1, 1), False, True, -3.0, True)]):
                    if not T_ and (gi + mi + vi) % 2 and not (gi == 1 and mi == 0):
                        continue
                    c.obligation("%s %s mask %s, %d patterns, padding %s%s%s, missing value %s%s" % (
                        how, geo, mask, n, pad, ", artifacts" if fix else "", ", background" if bgd else "", miss, ", one image" if flat else ""),
                        ob(geo, mask, how, n, pad, fix, bgd, miss, flat), "rep", timeout=25)
    return c
